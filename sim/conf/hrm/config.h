#pragma once
#define RESOURCES_PATH "/simfs/resources"
#define CONFIG_PATH "/simfs/config"
#define SOLUTION_DETAILS_PATH "/simfs/details"
#define BENCHMARK_DATA_PATH "/simfs/benchmark"
