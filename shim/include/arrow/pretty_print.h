#pragma once
#include "arrow/verif_arrow.h"
