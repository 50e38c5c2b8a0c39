// Util::error gives up through abort(); told apart here from every other abort.
#include <unistd.h>
extern "C" void __wrap_abort() { _exit(9); }
