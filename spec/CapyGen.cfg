SPECIFICATION Spec
CONSTANTS
  FontTable <- EnvFonts
  IccTable <- EnvIcc
  ImageTable <- EnvImages
  FileTable <- EnvFiles
  Scrape <- EnvScrape
CHECK_DEADLOCK FALSE
