// What C38 needs beside the sources under contract: classes seen by contract only.
#include <exception>

#include "recorder/stream_recorder/stream_recorder.h"
using namespace lightstep;

struct VfError : std::exception {
  virtual void vf_key() const;
  const char* what() const noexcept override;
};
void VfError::vf_key() const {}
const char* VfError::what() const noexcept { return "error"; }
struct VfRecorder : ForkAwareRecorder {
  virtual void vf_key();
  void PrepareForFork() noexcept override;
  void OnForkedParent() noexcept override;
  void OnForkedChild() noexcept override;
};
void VfRecorder::vf_key() {}
