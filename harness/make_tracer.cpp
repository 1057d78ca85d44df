// What C42 needs beside the source under contract: the exception that contracts throw.
#include <exception>
struct VfError : std::exception { virtual void vf_key() const; const char* what() const noexcept override; };
void VfError::vf_key() const {}
const char* VfError::what() const noexcept { return "error"; }
