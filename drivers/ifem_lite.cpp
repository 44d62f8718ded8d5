// The log stream of the library, without the initialisation code of IFEM.C (which pulls in everything).
// For drivers of parts which only use IFEM::cout.
#include "IFEM.h"
#include <iostream>
utl::LogStream IFEM::cout(std::cout);
std::shared_ptr<std::ostringstream> IFEM::memoryLog;
