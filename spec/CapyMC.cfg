SPECIFICATION Spec
CONSTANTS
  FontTable <- EnvFonts
  IccTable <- EnvIcc
  ImageTable <- EnvImages
  FileTable <- EnvFiles
  Scrape <- EnvScrape
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
