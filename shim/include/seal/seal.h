#pragma once
#include "seal/modulus.h"
#include "seal/util/uintarithsmallmod.h"
#include "seal/util/numth.h"
