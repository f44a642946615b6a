// calls merge_images of SOURCE; main() is for replays under AddressSanitizer: alpha_front, then the images as hexadecimal
#include SOURCE
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" size_t entry(const char** data, const size_t* sizes, size_t n, bool alpha_front, char* out) {
  std::vector<pybind11::bytes> images;
  images.reserve(n);
  for (size_t i = 0; i < n; i++) images.emplace_back(data[i], sizes[i]);
  pybind11::bytes result = merge_images(images, alpha_front);
  for (size_t i = 0; i < result.size(); i++) out[i] = result.data()[i];
  return result.size();
}
int main(int argc, char** argv) {
  size_t n = argc - 2;
  const char** data = new const char*[n];
  size_t* sizes = new size_t[n];
  size_t total = 0;
  for (size_t i = 0; i < n; i++) {
    const char* hex = argv[i + 2] + 1;
    sizes[i] = strlen(hex) / 2;
    char* p = new char[sizes[i]];
    for (size_t k = 0; k < sizes[i]; k++) { char b[3] = { hex[2 * k], hex[2 * k + 1], 0 }; p[k] = (char)strtol(b, 0, 16); }
    data[i] = p;
    total += sizes[i];
  }
  char* out = new char[total + 64];
  size_t m = entry(data, sizes, n, argv[1][0] == '1', out);
  for (size_t k = 0; k < m; k++) printf("%02x", (unsigned char)out[k]);
  printf("\n");
}
