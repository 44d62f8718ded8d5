// As ifem_lite.cpp, with all that the simulation drivers use (no external controller, no command-line options).
#include "IFEM.h"
#include "SIMoptions.h"
#include <iostream>
utl::LogStream IFEM::cout(std::cout);
std::shared_ptr<std::ostringstream> IFEM::memoryLog;
SIMoptions IFEM::cmdOptions;
int IFEM::argc = 0;
char** IFEM::argv = nullptr;
ControlFIFO* IFEM::fifo = nullptr;
int IFEM::Init(int, char**, const char*, bool) { return 0; }
void IFEM::Close() {}
void IFEM::registerCallback(ControlCallback&) {}
bool IFEM::pollControllerFifo() { return false; }
void IFEM::applyCommandLineOptions(SIMoptions&) {}
