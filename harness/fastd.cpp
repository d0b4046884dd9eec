// Line server around fast-d: "D nA a... nB b..." -> "dist mapA... ; mapB...", with the
// two map-less functions; "S cutoff n m..." -> MapContainsErrorStreaks.
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "fast-d.h"

int main() {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    auto vec = [&] {
      int n = 0;
      in >> n;
      std::vector<int> v(n);
      for (auto &x : v) in >> x;
      return v;
    };
    std::ostringstream out;
    if (op == "D") {
      auto a = vec(), b = vec();
      auto a0 = a, b0 = b;
      std::vector<int> ma, mb;
      int d = GetEditDistance(a, ma, b, mb);
      out << d << " " << GetEditDistance(a, b) << " " << GetEditDistanceOnly(a, b) << " " << (a == a0 && b == b0);
      out << " " << ma.size();
      for (int x : ma) out << " " << x;
      out << " " << mb.size();
      for (int x : mb) out << " " << x;
    } else if (op == "S") {
      int cutoff = 0;
      in >> cutoff;
      auto m = vec();
      out << MapContainsErrorStreaks(m, cutoff);
    } else {
      out << "?";
    }
    std::cout << out.str() << "\n" << std::flush;
  }
}
