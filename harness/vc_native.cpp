#include <csignal>
#include VC_SOURCE
int main(int argc, char** argv) { return vc_main(argc, argv); }
