#pragma once
#include <ade/ade_standin.hpp>
