#define custom custom_iris
#define label2digit label2digit_iris
#include <iris/utility.cpp>
