#pragma once
namespace sim {
int serverMain(int argc, char **argv); // main() of the server
void runConfigured();                  // ... with a generated configuration
void runServerMain();                  // in place of the simulator's own event loop
}
