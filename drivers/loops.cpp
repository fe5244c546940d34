// Functions of headers that no library unit or tool uses: instantiated so that their loops are analysed.
#include "ppocr/ocr2/replacement.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include <vector>
#include <string>

void use_replace(std::string & s, ppocr::ocr2::Replacements const & r) { ppocr::ocr2::replace_words(s, r); }
unsigned use_word_index(ppocr::ocr2::Glyphs const & g, std::string_view s) { return g.word_index_of(s); }
bool use_words(ppocr::spell::WordDisambiguouser & w, ppocr::spell::Dictionary const & d, std::vector<std::vector<std::string>> & v, std::string & s)
{ return w(d, v.begin(), v.end(), s); }
