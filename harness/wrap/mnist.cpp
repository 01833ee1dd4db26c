#define custom custom_mnist
#define label2digit label2digit_mnist
#include <mnist/utility.cpp>
