#define custom custom_cifar10
#define label2digit label2digit_cifar10
#include <cifar10/utility.cpp>
