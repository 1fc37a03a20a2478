#pragma once
#include "tensors.hpp"
#include "ml/happyml_dsl.hpp"
