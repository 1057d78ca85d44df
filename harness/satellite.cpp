// What C36 needs beside the sources under contract: an exception whose what()
// is called, and the classes whose layout is used.
#include <exception>

#include "recorder/stream_recorder/satellite_connection.h"
#include "recorder/stream_recorder/satellite_streamer.h"

struct VfError : std::exception {
  virtual void vf_key() const;
  const char* what() const noexcept override;
};
void VfError::vf_key() const {}
const char* VfError::what() const noexcept { return "error"; }
