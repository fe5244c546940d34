// Lifetimes of the objects that own memory or files, instantiated so that the analysis sees whole lives (never run).
#include "ppocr/image/image.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/loader2/image_io.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/indexes_ordered.hpp"
#include "ppocr/ocr2/probabilities.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/strategies/utils/count_zone.hpp"

#include <vector>
#include <istream>
#include <utility>

using namespace ppocr;

void fill(Pixel *);
void look(Image const &);
void look(void const *);

void life_loaded_image(char const * filename) { Image img = image_from_file(filename); look(img); }

void life_moved_image(char const * filename) { Image a = image_from_file(filename); Image b(std::move(a)); look(b); }

void life_assigned_image(char const * f1, char const * f2) {
    Image a = image_from_file(f1);
    Image b = image_from_file(f2);
    b = std::move(a);
    look(b);
}

void life_released_image(char const * filename) { Image a = image_from_file(filename); PtrImageData d = a.release(); look(d.get()); }

void life_section(Image const & img, Index const & idx, Bounds const & bnd) { Image a = img.section(idx, bnd); look(a); }

void life_rotation(Image const & img) { Image a = img.rotate90(); look(a); }

void life_copy(Image const & img) { Image a = img.clone(); look(a); }

void life_read_image(std::istream & is) { Image a; loader2::read_img(is, a); look(a); loader2::read_img(is, a); look(a); }

void life_zone_buffer(std::size_t n1, std::size_t n2) {
    strategies::utils::Buffer<unsigned> b;
    look(b.alloc_and_init_to_zero(n1));
    look(b.alloc_and_init_to_zero(n2));
}

void life_indexes(std::vector<double> const & v) { ocr2::IndexesOrdered a(v); ocr2::IndexesOrdered b(std::move(a)); look(b.begin()); }

void life_probabilities(std::size_t n1, std::size_t n2) {
    ocr2::Probabilities a(n1);
    ocr2::Probabilities b(n2);
    look(a.begin());
    swap(a, b);
    look(b.begin());
}

void life_glyph_words(std::istream & is1, std::istream & is2) { ocr2::Glyphs g; is1 >> g; look(&g); is2 >> g; look(&g); }

void shared_once(Bounds const & b1) {
    ocr2::ImageContext c;
    look(c.img(b1, fill));
    look(c.img90());
}

void shared_again(Bounds const & b1, Bounds const & b2) {
    ocr2::ImageContext c;
    look(c.img(b1, fill));
    look(c.img90());
    look(c.img(b2, fill));
    look(c.img90());
    look(c.img(b1, fill));
}

// one use of a context whose previous uses are unknown: decided against the class invariant
void part_img(ocr2::ImageContext & c, Bounds const & bnd) {
    look(c.img(bnd, fill));
}

void part_img90(ocr2::ImageContext & c) {
    look(c.img90());
}
