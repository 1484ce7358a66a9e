// executes one input script as `hexecute` does (with a fixed number of threads)
#include <Case.hpp>
#include <iostream>
#include <omp.h>
int main(int, char** argv)
{
  omp_set_num_threads(1);
  try {
    hexed::Case c{std::string(argv[1])};
  } catch (const std::exception& e) {
    std::cout << std::flush;
    std::cerr << "EXCEPTION " << e.what() << std::endl;
    return 3;
  }
}
