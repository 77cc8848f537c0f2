// What std::sort does to 0..n-1 when all keys are equal, for each n given; one line each.
#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <numeric>
#include <vector>
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::vector<int> x(std::atoi(argv[i]));
        std::iota(x.begin(), x.end(), 0);
        std::sort(x.begin(), x.end(), [](int, int) { return false; });
        for (int v : x) std::cout << v << ' ';
        std::cout << '\n';
    }
}
