// The steps of the UTF-8 iterators, instantiated so that the analysis sees them (never run).
#include <cstdint>
#include <new>
#include "ppocr/utils/utf.hpp"
using namespace ppocr::utf;
void utf_next_bytes(UTF8Iterator & it) { ++it; }
void utf_next_unicode(UTF8toUnicodeIterator & it) { ++it; }
void utf_first_bytes(void * it, uint8_t const * s) { new (it) UTF8Iterator(s); }
void utf_first_unicode(void * it, uint8_t const * s) { new (it) UTF8toUnicodeIterator(s); }
