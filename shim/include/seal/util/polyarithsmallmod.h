#pragma once
#include "seal/util/uintarithsmallmod.h"
