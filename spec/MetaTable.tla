----------------------------- MODULE MetaTable -----------------------------
(***************************************************************************)
(* The declared metadata keys: priority, description (character codes),     *)
(* type, range of numbers and durations (<<unit, fraction>>: eighths for    *)
(* numbers, microseconds for durations), conversion and text of values.     *)
(***************************************************************************)
Table == <<
  [key |-> "title", kc |-> <<116, 105, 116, 108, 101>>, prio |-> 100, desc |-> <<84, 105, 116, 108, 101>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "artist", kc |-> <<97, 114, 116, 105, 115, 116>>, prio |-> 101, desc |-> <<65, 114, 116, 105, 115, 116>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "author", kc |-> <<97, 117, 116, 104, 111, 114>>, prio |-> 102, desc |-> <<65, 117, 116, 104, 111, 114>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "music_composer", kc |-> <<109, 117, 115, 105, 99, 95, 99, 111, 109, 112, 111, 115, 101, 114>>, prio |-> 103, desc |-> <<77, 117, 115, 105, 99, 32, 99, 111, 109, 112, 111, 115, 101, 114>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "album", kc |-> <<97, 108, 98, 117, 109>>, prio |-> 200, desc |-> <<65, 108, 98, 117, 109>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "duration", kc |-> <<100, 117, 114, 97, 116, 105, 111, 110>>, prio |-> 201, desc |-> <<68, 117, 114, 97, 116, 105, 111, 110>>, type |-> "delta", filter |-> <<<<0, 1000>>, <<31536000, 0>>>>, conv |-> "none", handler |-> "free"],
  [key |-> "nb_page", kc |-> <<110, 98, 95, 112, 97, 103, 101>>, prio |-> 202, desc |-> <<78, 98, 32, 112, 97, 103, 101>>, type |-> "any", filter |-> <<<<1, 0>>, <<20000, 0>>>>, conv |-> "none", handler |-> "plain"],
  [key |-> "music_genre", kc |-> <<109, 117, 115, 105, 99, 95, 103, 101, 110, 114, 101>>, prio |-> 203, desc |-> <<77, 117, 115, 105, 99, 32, 103, 101, 110, 114, 101>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "language", kc |-> <<108, 97, 110, 103, 117, 97, 103, 101>>, prio |-> 204, desc |-> <<76, 97, 110, 103, 117, 97, 103, 101>>, type |-> "lang", filter |-> <<>>, conv |-> "lang", handler |-> "plain"],
  [key |-> "track_number", kc |-> <<116, 114, 97, 99, 107, 95, 110, 117, 109, 98, 101, 114>>, prio |-> 205, desc |-> <<84, 114, 97, 99, 107, 32, 110, 117, 109, 98, 101, 114>>, type |-> "int", filter |-> <<<<1, 0>>, <<999, 0>>>>, conv |-> "track", handler |-> "plain"],
  [key |-> "track_total", kc |-> <<116, 114, 97, 99, 107, 95, 116, 111, 116, 97, 108>>, prio |-> 206, desc |-> <<84, 114, 97, 99, 107, 32, 116, 111, 116, 97, 108>>, type |-> "int", filter |-> <<<<1, 0>>, <<999, 0>>>>, conv |-> "total", handler |-> "plain"],
  [key |-> "organization", kc |-> <<111, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110>>, prio |-> 210, desc |-> <<79, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "version", kc |-> <<118, 101, 114, 115, 105, 111, 110>>, prio |-> 220, desc |-> <<86, 101, 114, 115, 105, 111, 110>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "width", kc |-> <<119, 105, 100, 116, 104>>, prio |-> 301, desc |-> <<73, 109, 97, 103, 101, 32, 119, 105, 100, 116, 104>>, type |-> "int", filter |-> <<<<1, 0>>, <<20000, 0>>>>, conv |-> "none", handler |-> "pixels"],
  [key |-> "height", kc |-> <<104, 101, 105, 103, 104, 116>>, prio |-> 302, desc |-> <<73, 109, 97, 103, 101, 32, 104, 101, 105, 103, 104, 116>>, type |-> "int", filter |-> <<<<1, 0>>, <<20000, 0>>>>, conv |-> "none", handler |-> "pixels"],
  [key |-> "nb_channel", kc |-> <<110, 98, 95, 99, 104, 97, 110, 110, 101, 108>>, prio |-> 303, desc |-> <<67, 104, 97, 110, 110, 101, 108>>, type |-> "int", filter |-> <<<<1, 0>>, <<8, 0>>>>, conv |-> "none", handler |-> "chan"],
  [key |-> "sample_rate", kc |-> <<115, 97, 109, 112, 108, 101, 95, 114, 97, 116, 101>>, prio |-> 304, desc |-> <<83, 97, 109, 112, 108, 101, 32, 114, 97, 116, 101>>, type |-> "num", filter |-> <<<<1000, 0>>, <<192000, 0>>>>, conv |-> "none", handler |-> "free"],
  [key |-> "bits_per_sample", kc |-> <<98, 105, 116, 115, 95, 112, 101, 114, 95, 115, 97, 109, 112, 108, 101>>, prio |-> 305, desc |-> <<66, 105, 116, 115, 47, 115, 97, 109, 112, 108, 101>>, type |-> "int", filter |-> <<<<1, 0>>, <<64, 0>>>>, conv |-> "none", handler |-> "free"],
  [key |-> "image_orientation", kc |-> <<105, 109, 97, 103, 101, 95, 111, 114, 105, 101, 110, 116, 97, 116, 105, 111, 110>>, prio |-> 306, desc |-> <<73, 109, 97, 103, 101, 32, 111, 114, 105, 101, 110, 116, 97, 116, 105, 111, 110>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "nb_colors", kc |-> <<110, 98, 95, 99, 111, 108, 111, 114, 115>>, prio |-> 307, desc |-> <<78, 117, 109, 98, 101, 114, 32, 111, 102, 32, 99, 111, 108, 111, 114, 115>>, type |-> "int", filter |-> <<<<1, 0>>, <<16777216, 0>>>>, conv |-> "none", handler |-> "plain"],
  [key |-> "bits_per_pixel", kc |-> <<98, 105, 116, 115, 95, 112, 101, 114, 95, 112, 105, 120, 101, 108>>, prio |-> 308, desc |-> <<66, 105, 116, 115, 47, 112, 105, 120, 101, 108>>, type |-> "int", filter |-> <<<<1, 0>>, <<256, 0>>>>, conv |-> "none", handler |-> "plain"],
  [key |-> "filename", kc |-> <<102, 105, 108, 101, 110, 97, 109, 101>>, prio |-> 309, desc |-> <<70, 105, 108, 101, 32, 110, 97, 109, 101>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "file_size", kc |-> <<102, 105, 108, 101, 95, 115, 105, 122, 101>>, prio |-> 310, desc |-> <<70, 105, 108, 101, 32, 115, 105, 122, 101>>, type |-> "int", filter |-> <<>>, conv |-> "none", handler |-> "free"],
  [key |-> "pixel_format", kc |-> <<112, 105, 120, 101, 108, 95, 102, 111, 114, 109, 97, 116>>, prio |-> 311, desc |-> <<80, 105, 120, 101, 108, 32, 102, 111, 114, 109, 97, 116>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "compr_size", kc |-> <<99, 111, 109, 112, 114, 95, 115, 105, 122, 101>>, prio |-> 312, desc |-> <<67, 111, 109, 112, 114, 101, 115, 115, 101, 100, 32, 102, 105, 108, 101, 32, 115, 105, 122, 101>>, type |-> "int", filter |-> <<>>, conv |-> "none", handler |-> "free"],
  [key |-> "compr_rate", kc |-> <<99, 111, 109, 112, 114, 95, 114, 97, 116, 101>>, prio |-> 313, desc |-> <<67, 111, 109, 112, 114, 101, 115, 115, 105, 111, 110, 32, 114, 97, 116, 101>>, type |-> "num", filter |-> <<<<0, 1>>, <<1000, 0>>>>, conv |-> "none", handler |-> "free"],
  [key |-> "width_dpi", kc |-> <<119, 105, 100, 116, 104, 95, 100, 112, 105>>, prio |-> 320, desc |-> <<73, 109, 97, 103, 101, 32, 68, 80, 73, 32, 119, 105, 100, 116, 104>>, type |-> "int", filter |-> <<<<1, 0>>, <<10000, 0>>>>, conv |-> "none", handler |-> "dpi"],
  [key |-> "height_dpi", kc |-> <<104, 101, 105, 103, 104, 116, 95, 100, 112, 105>>, prio |-> 321, desc |-> <<73, 109, 97, 103, 101, 32, 68, 80, 73, 32, 104, 101, 105, 103, 104, 116>>, type |-> "int", filter |-> <<<<1, 0>>, <<10000, 0>>>>, conv |-> "none", handler |-> "dpi"],
  [key |-> "file_attr", kc |-> <<102, 105, 108, 101, 95, 97, 116, 116, 114>>, prio |-> 400, desc |-> <<70, 105, 108, 101, 32, 97, 116, 116, 114, 105, 98, 117, 116, 101, 115>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "file_type", kc |-> <<102, 105, 108, 101, 95, 116, 121, 112, 101>>, prio |-> 401, desc |-> <<70, 105, 108, 101, 32, 116, 121, 112, 101>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "subtitle_author", kc |-> <<115, 117, 98, 116, 105, 116, 108, 101, 95, 97, 117, 116, 104, 111, 114>>, prio |-> 402, desc |-> <<83, 117, 98, 116, 105, 116, 108, 101, 32, 97, 117, 116, 104, 111, 114>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "creation_date", kc |-> <<99, 114, 101, 97, 116, 105, 111, 110, 95, 100, 97, 116, 101>>, prio |-> 500, desc |-> <<67, 114, 101, 97, 116, 105, 111, 110, 32, 100, 97, 116, 101>>, type |-> "date", filter |-> <<>>, conv |-> "date", handler |-> "dt"],
  [key |-> "last_modification", kc |-> <<108, 97, 115, 116, 95, 109, 111, 100, 105, 102, 105, 99, 97, 116, 105, 111, 110>>, prio |-> 501, desc |-> <<76, 97, 115, 116, 32, 109, 111, 100, 105, 102, 105, 99, 97, 116, 105, 111, 110>>, type |-> "date", filter |-> <<>>, conv |-> "date", handler |-> "dt"],
  [key |-> "latitude", kc |-> <<108, 97, 116, 105, 116, 117, 100, 101>>, prio |-> 510, desc |-> <<76, 97, 116, 105, 116, 117, 100, 101>>, type |-> "float", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "longitude", kc |-> <<108, 111, 110, 103, 105, 116, 117, 100, 101>>, prio |-> 511, desc |-> <<76, 111, 110, 103, 105, 116, 117, 100, 101>>, type |-> "float", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "altitude", kc |-> <<97, 108, 116, 105, 116, 117, 100, 101>>, prio |-> 512, desc |-> <<65, 108, 116, 105, 116, 117, 100, 101>>, type |-> "float", filter |-> <<>>, conv |-> "none", handler |-> "free"],
  [key |-> "location", kc |-> <<108, 111, 99, 97, 116, 105, 111, 110>>, prio |-> 530, desc |-> <<76, 111, 99, 97, 116, 105, 111, 110>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "city", kc |-> <<99, 105, 116, 121>>, prio |-> 531, desc |-> <<67, 105, 116, 121>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "country", kc |-> <<99, 111, 117, 110, 116, 114, 121>>, prio |-> 532, desc |-> <<67, 111, 117, 110, 116, 114, 121>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "charset", kc |-> <<99, 104, 97, 114, 115, 101, 116>>, prio |-> 540, desc |-> <<67, 104, 97, 114, 115, 101, 116>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "font_weight", kc |-> <<102, 111, 110, 116, 95, 119, 101, 105, 103, 104, 116>>, prio |-> 550, desc |-> <<70, 111, 110, 116, 32, 119, 101, 105, 103, 104, 116>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "camera_aperture", kc |-> <<99, 97, 109, 101, 114, 97, 95, 97, 112, 101, 114, 116, 117, 114, 101>>, prio |-> 520, desc |-> <<67, 97, 109, 101, 114, 97, 32, 97, 112, 101, 114, 116, 117, 114, 101>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "camera_focal", kc |-> <<99, 97, 109, 101, 114, 97, 95, 102, 111, 99, 97, 108>>, prio |-> 521, desc |-> <<67, 97, 109, 101, 114, 97, 32, 102, 111, 99, 97, 108>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "camera_exposure", kc |-> <<99, 97, 109, 101, 114, 97, 95, 101, 120, 112, 111, 115, 117, 114, 101>>, prio |-> 522, desc |-> <<67, 97, 109, 101, 114, 97, 32, 101, 120, 112, 111, 115, 117, 114, 101>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "camera_brightness", kc |-> <<99, 97, 109, 101, 114, 97, 95, 98, 114, 105, 103, 104, 116, 110, 101, 115, 115>>, prio |-> 530, desc |-> <<67, 97, 109, 101, 114, 97, 32, 98, 114, 105, 103, 104, 116, 110, 101, 115, 115>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "camera_model", kc |-> <<99, 97, 109, 101, 114, 97, 95, 109, 111, 100, 101, 108>>, prio |-> 531, desc |-> <<67, 97, 109, 101, 114, 97, 32, 109, 111, 100, 101, 108>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "camera_manufacturer", kc |-> <<99, 97, 109, 101, 114, 97, 95, 109, 97, 110, 117, 102, 97, 99, 116, 117, 114, 101, 114>>, prio |-> 532, desc |-> <<67, 97, 109, 101, 114, 97, 32, 109, 97, 110, 117, 102, 97, 99, 116, 117, 114, 101, 114>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "compression", kc |-> <<99, 111, 109, 112, 114, 101, 115, 115, 105, 111, 110>>, prio |-> 600, desc |-> <<67, 111, 109, 112, 114, 101, 115, 115, 105, 111, 110>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "copyright", kc |-> <<99, 111, 112, 121, 114, 105, 103, 104, 116>>, prio |-> 601, desc |-> <<67, 111, 112, 121, 114, 105, 103, 104, 116>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "url", kc |-> <<117, 114, 108>>, prio |-> 602, desc |-> <<85, 82, 76>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "frame_rate", kc |-> <<102, 114, 97, 109, 101, 95, 114, 97, 116, 101>>, prio |-> 603, desc |-> <<70, 114, 97, 109, 101, 32, 114, 97, 116, 101>>, type |-> "num", filter |-> <<<<1, 0>>, <<150, 0>>>>, conv |-> "none", handler |-> "free"],
  [key |-> "bit_rate", kc |-> <<98, 105, 116, 95, 114, 97, 116, 101>>, prio |-> 604, desc |-> <<66, 105, 116, 32, 114, 97, 116, 101>>, type |-> "num", filter |-> <<<<1, 0>>, <<524288000, 0>>>>, conv |-> "none", handler |-> "free"],
  [key |-> "aspect_ratio", kc |-> <<97, 115, 112, 101, 99, 116, 95, 114, 97, 116, 105, 111>>, prio |-> 604, desc |-> <<65, 115, 112, 101, 99, 116, 32, 114, 97, 116, 105, 111>>, type |-> "num", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "thumbnail_size", kc |-> <<116, 104, 117, 109, 98, 110, 97, 105, 108, 95, 115, 105, 122, 101>>, prio |-> 604, desc |-> <<84, 104, 117, 109, 98, 110, 97, 105, 108, 32, 115, 105, 122, 101>>, type |-> "num", filter |-> <<>>, conv |-> "none", handler |-> "free"],
  [key |-> "iso_speed_ratings", kc |-> <<105, 115, 111, 95, 115, 112, 101, 101, 100, 95, 114, 97, 116, 105, 110, 103, 115>>, prio |-> 800, desc |-> <<73, 83, 79, 32, 115, 112, 101, 101, 100, 32, 114, 97, 116, 105, 110, 103>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "exif_version", kc |-> <<101, 120, 105, 102, 95, 118, 101, 114, 115, 105, 111, 110>>, prio |-> 801, desc |-> <<69, 88, 73, 70, 32, 118, 101, 114, 115, 105, 111, 110>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "date_time_original", kc |-> <<100, 97, 116, 101, 95, 116, 105, 109, 101, 95, 111, 114, 105, 103, 105, 110, 97, 108>>, prio |-> 802, desc |-> <<68, 97, 116, 101, 45, 116, 105, 109, 101, 32, 111, 114, 105, 103, 105, 110, 97, 108>>, type |-> "date", filter |-> <<>>, conv |-> "date", handler |-> "dt"],
  [key |-> "date_time_digitized", kc |-> <<100, 97, 116, 101, 95, 116, 105, 109, 101, 95, 100, 105, 103, 105, 116, 105, 122, 101, 100>>, prio |-> 803, desc |-> <<68, 97, 116, 101, 45, 116, 105, 109, 101, 32, 100, 105, 103, 105, 116, 105, 122, 101, 100>>, type |-> "date", filter |-> <<>>, conv |-> "date", handler |-> "dt"],
  [key |-> "compressed_bits_per_pixel", kc |-> <<99, 111, 109, 112, 114, 101, 115, 115, 101, 100, 95, 98, 105, 116, 115, 95, 112, 101, 114, 95, 112, 105, 120, 101, 108>>, prio |-> 804, desc |-> <<67, 111, 109, 112, 114, 101, 115, 115, 101, 100, 32, 98, 105, 116, 115, 32, 112, 101, 114, 32, 112, 105, 120, 101, 108>>, type |-> "num", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "shutter_speed_value", kc |-> <<115, 104, 117, 116, 116, 101, 114, 95, 115, 112, 101, 101, 100, 95, 118, 97, 108, 117, 101>>, prio |-> 805, desc |-> <<83, 104, 117, 116, 116, 101, 114, 32, 115, 112, 101, 101, 100>>, type |-> "num", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "aperture_value", kc |-> <<97, 112, 101, 114, 116, 117, 114, 101, 95, 118, 97, 108, 117, 101>>, prio |-> 806, desc |-> <<65, 112, 101, 114, 116, 117, 114, 101>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "exposure_bias_value", kc |-> <<101, 120, 112, 111, 115, 117, 114, 101, 95, 98, 105, 97, 115, 95, 118, 97, 108, 117, 101>>, prio |-> 807, desc |-> <<69, 120, 112, 111, 115, 117, 114, 101, 32, 98, 105, 97, 115>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "focal_length", kc |-> <<102, 111, 99, 97, 108, 95, 108, 101, 110, 103, 116, 104>>, prio |-> 808, desc |-> <<70, 111, 99, 97, 108, 32, 108, 101, 110, 103, 116, 104>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "flashpix_version", kc |-> <<102, 108, 97, 115, 104, 112, 105, 120, 95, 118, 101, 114, 115, 105, 111, 110>>, prio |-> 809, desc |-> <<70, 108, 97, 115, 104, 112, 105, 120, 32, 118, 101, 114, 115, 105, 111, 110>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "focal_plane_x_resolution", kc |-> <<102, 111, 99, 97, 108, 95, 112, 108, 97, 110, 101, 95, 120, 95, 114, 101, 115, 111, 108, 117, 116, 105, 111, 110>>, prio |-> 810, desc |-> <<70, 111, 99, 97, 108, 32, 112, 108, 97, 110, 101, 32, 119, 105, 100, 116, 104>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "focal_plane_y_resolution", kc |-> <<102, 111, 99, 97, 108, 95, 112, 108, 97, 110, 101, 95, 121, 95, 114, 101, 115, 111, 108, 117, 116, 105, 111, 110>>, prio |-> 811, desc |-> <<70, 111, 99, 97, 108, 32, 112, 108, 97, 110, 101, 32, 104, 101, 105, 103, 104, 116>>, type |-> "float", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "focal_length_in_35mm_film", kc |-> <<102, 111, 99, 97, 108, 95, 108, 101, 110, 103, 116, 104, 95, 105, 110, 95, 51, 53, 109, 109, 95, 102, 105, 108, 109>>, prio |-> 812, desc |-> <<70, 111, 99, 97, 108, 32, 108, 101, 110, 103, 116, 104, 32, 105, 110, 32, 51, 53, 109, 109, 32, 102, 105, 108, 109>>, type |-> "any", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "os", kc |-> <<111, 115>>, prio |-> 900, desc |-> <<79, 83>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "producer", kc |-> <<112, 114, 111, 100, 117, 99, 101, 114>>, prio |-> 901, desc |-> <<80, 114, 111, 100, 117, 99, 101, 114>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "comment", kc |-> <<99, 111, 109, 109, 101, 110, 116>>, prio |-> 902, desc |-> <<67, 111, 109, 109, 101, 110, 116>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "format_version", kc |-> <<102, 111, 114, 109, 97, 116, 95, 118, 101, 114, 115, 105, 111, 110>>, prio |-> 950, desc |-> <<70, 111, 114, 109, 97, 116, 32, 118, 101, 114, 115, 105, 111, 110>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "mime_type", kc |-> <<109, 105, 109, 101, 95, 116, 121, 112, 101>>, prio |-> 951, desc |-> <<77, 73, 77, 69, 32, 116, 121, 112, 101>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"],
  [key |-> "endian", kc |-> <<101, 110, 100, 105, 97, 110>>, prio |-> 952, desc |-> <<69, 110, 100, 105, 97, 110, 110, 101, 115, 115>>, type |-> "str", filter |-> <<>>, conv |-> "none", handler |-> "plain"]
>>
=============================================================================
