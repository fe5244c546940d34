// Uses of the feature contexts by the library's entry points, instantiated for C07.
#include "ppocr/image/image.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/compute_image.hpp"

using namespace ppocr;

void hist_datas(PpOcrDatas & d, Image const & img) { d.load(img); }

ocr2::view_ref_list hist_compute(
    ocr2::Probabilities & p1, ocr2::Probabilities & p2, PpOcrDatas const & datas,
    ocr2::DataIndexesOrdered<loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>> const & first,
    ocr2::DataIndexesByWords const & by_words, ocr2::Glyphs const & glyphs, std::vector<unsigned> const & id_views,
    Image const & img, Image const & img90, PpOcrDataCtxs & ctx
) {
    return ocr2::compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, p1, p2, datas, first, by_words, glyphs, id_views, img, img90, ctx, 0.5);
}
