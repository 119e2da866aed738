SPECIFICATION Spec
CONSTANTS Fmts = {"bmp", "png", "gif", "pcx", "tga", "ico", "wav", "au", "aiff", "flac", "tar", "zip", "gzip", "tiff", "tiffbe", "jpeg", "psd", "xcf", "emf", "apm", "flv", "swf", "torrent", "bzip2", "mar", "oggvorbis", "oggtheora", "mkv", "webm", "mp4", "mov", "avi", "ra", "rmaudio", "rmvideo", "mp3", "cab", "pcf", "ttf", "wma", "wmv", "iso9660", "exe"} PerFormat = 2 Export = TRUE
INVARIANTS True_ Complete Honest
CHECK_DEADLOCK FALSE
