#define custom custom_cifar100
#define label2digit label2digit_cifar100
#include <cifar100/utility.cpp>
