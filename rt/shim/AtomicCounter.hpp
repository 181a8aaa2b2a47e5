#include <Lintel/AtomicCounter.hpp>
