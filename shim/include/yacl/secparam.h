#pragma once
#define YACL_PRINT_MODULE_SUMMARY() (void)0
#include <cstdint>
#include <cstddef>
#define YACL_MODULE_SECPARAM_C_UINT(m, v) 
#define YACL_MODULE_SECPARAM_S_UINT(m, v) 
#define YACL_MODULE_DECLARE(...)
