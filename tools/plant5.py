from plant import plant
C = 'src/common/'
PB = '_build/libprotos.a -lprotobuf'

plant('b31-empty-baggage-value', 'C31', [('src/tracer/serialization.cpp', '''    WriteString<MapEntryValueField>(stream, baggage_item.second);
''', '''    if (!baggage_item.second.empty()) {
      WriteString<MapEntryValueField>(stream, baggage_item.second);
    }
''')], r'''
#include "tracer/serialization.h"
#include "lightstep-tracer-common/collector.pb.h"
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <cstdio>
int main() {
  for (const char* v : {"value", ""}) {
    std::string s; { google::protobuf::io::StringOutputStream z{&s}; google::protobuf::io::CodedOutputStream c{&z}; lightstep::WriteSpanContext(c, 1, 2, {{"a", "b"}, {"key", v}, {"other", "x"}}); lightstep::WriteOperationName(c, "name"); }
    lightstep::collector::Span p;
    if (!p.ParseFromString(s) || p.operation_name() != "name" || p.span_context().baggage_size() != 3 || p.span_context().baggage().at("key") != v) { std::printf("a span with baggage key=\"%s\" does not decode\n", v); return 1; }
  }
}
''', srcs=['src/tracer/serialization.cpp'] + [C + x + '.cpp' for x in ('serialization', 'utility', 'hex_conversion', 'logger')], stubs=True, libs=PB, needs='a baggage item whose value is empty', breaks='the declared length of the item takes two bytes of what follows')

plant('b32-nul-in-text', 'C32', [(C + 'utility.cpp', '''        if (static_cast<signed char>('\\x00') <= c &&''', '''        if (static_cast<signed char>('\\x00') < c &&''')], r'''
#include "common/utility.h"
#include <cstdio>
int main() {
  std::string t("a\x00" "b", 3), j = lightstep::ToJson(opentracing::Values{opentracing::Value(t), opentracing::Value("\x1f"), opentracing::Value(10)});
  if (j != "[\"a\\u0000b\",\"\\u001f\",10]") { std::printf("%zu bytes of JSON: %s\n", j.size(), j.c_str()); return 1; }
}
''', srcs=[C + x + '.cpp' for x in ('utility', 'hex_conversion', 'logger')], stubs=True, libs=PB, needs='a text with an embedded NUL in a container value', breaks='the NUL is written raw: the JSON is not well-formed')
