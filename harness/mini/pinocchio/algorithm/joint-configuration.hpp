#pragma once
#include "pinocchio/mini.hpp"
