// Instantiates the class templates of the library that its own sources use only in part, so that every member is analysed.
#include "kml/base/memory_file.h"
#include "kml/base/net_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kmz_file.h"
template class kmlbase::NetCache<kmlbase::MemoryFile>;
template class kmlbase::NetCache<kmlengine::KmzFile>;
template class kmlbase::NetCache<kmlengine::KmlFile>;
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/convenience/feature_list.h"
