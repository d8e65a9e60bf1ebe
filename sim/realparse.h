#pragma once
#include "model.h"
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/event.hpp>
DEv from_event(const HawkTracer::parser::Event& e);
// Runs the product's parser over a file of the simulated disk; false when it cannot be opened.
bool parse_file(const std::string& path, bool flat, std::vector<DEv>& out);
