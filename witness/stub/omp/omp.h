#pragma once
// stand-in for the OpenMP runtime: the region is analysed as executed by thread 1 of 2
inline int omp_get_max_threads() { return 2; }
inline int omp_get_thread_num() { return 1; }
inline int omp_get_num_threads() { return 2; }
