// SRC: serialization.cpp
#include "ser.hpp"
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.3)) allcases(false, Round{false, false});
  return H::done("random values of every supported type appended to a random prefix and read back with a random suffix; every evaluation is one round trip");
}
