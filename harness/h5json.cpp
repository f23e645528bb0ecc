#include "h5json.hpp"
int main(int argc, char** argv) { for (int i = 1; i < argc; i++) puts(h5json::json(argv[i]).c_str()); }
