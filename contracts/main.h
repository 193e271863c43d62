#ifndef VERIFY_SYMBOLIC
#include <deal.II/base/mpi.h>
int main(int argc, char **argv)
{
  dealii::deal_II_exceptions::disable_abort_on_exception();
#ifdef VERIFY_WITH_MPI
  int one = 1;
  dealii::Utilities::MPI::MPI_InitFinalize mpi(one, argv, 1);
#endif
  return verify::run_main(argc, argv);
}
#endif
