// Stand-in for APSI's logging: the stream expression is evaluated, not shown.
#pragma once
#include <iostream>
#include <sstream>
#define VERIF_APSI_LOG_(...) do { std::ostringstream verif_o_; verif_o_ << __VA_ARGS__; } while (0)
#define APSI_LOG_TRACE(...) do { } while (0)
#define APSI_LOG_DEBUG(...) do { } while (0)
#define APSI_LOG_INFO(...) VERIF_APSI_LOG_(__VA_ARGS__)
#define APSI_LOG_WARNING(...) VERIF_APSI_LOG_(__VA_ARGS__)
#define APSI_LOG_ERROR(...) VERIF_APSI_LOG_(__VA_ARGS__)
