#include "pinocchio/mini.hpp"
