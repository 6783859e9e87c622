#!/usr/bin/env python3
"""Writes the "fixed:" lines of known_findings.txt from the fix commits of /repo; keeps the "known:" lines."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('a cleared draw context', 'P06'), ('a refused marked content', 'P05'), ('carriage returns in strings', 'P20'), ('all PDF delimiters', 'P20'),
 ('marked content tags and attributes', 'P20'), ('text that can not be rendered leaves', 'P05'), ('a text sequence is well formed', 'P12'),
 ('text with missing glyphs', 'P05'), ('every kind of colour', 'P02'), ('text line widths', 'P14'), ('graphics state, shading, pattern', 'P14'),
 ('a page refused for reusing', 'P05'), ('form XObjects, patterns and transparency groups are checked', 'P06'), ('enumerated arguments', 'P14'),
 ('the dimension of a transition', 'P16'), ('infinities and NaNs', 'P14'), ('graphics state keys', 'P19'), ('page label styles', 'P15'),
 ('predefined spot', 'P19'), ('the type of an output intent', 'P21'), ('NeedAppearances', 'P10'), ('the structure tree root', 'P08'),
 ('the rendering intent of a graphics', 'P19'), ('subtype and file specification', 'P22'), ('collection schemas', 'P22'), ('mesh shadings', 'P19'),
 ('interpolation functions', 'P19'), ('parents of outlines', 'P09'), ('special characters in language', 'P20'), ('a structure item with both', 'P08'), ('structure items are only marked', 'P08'),
 ('ToUnicode maps have surrogate', 'P12'), ('overlong encodings', 'P20'), ('a glyph is reused only', 'P12'), ('annotations can only be put', 'P07'),
 ('objects that annotations refer', 'P07'), ('an empty ICC profile', 'P18'), ('sized buffers', 'P14'), ('names of optional content', 'P16'),
 ('ampersands in metadata', 'P21'), ('the rectangle of a viewport', 'P15'), ('a failed write leaves', 'P11'), ('an added ICC profile', 'P18'),
 ('names of form field values', 'P20'), ('number formats, measures', 'P06'), ('the cmap table', 'P23'), ('the tables of a subset', 'P13'),
 ('the bounding box of a glyph', 'P13'), ('text that can not be rendered adds', 'P05'), ('Python enumeration values', 'P24'), ('Python classes of transition', 'P24'), ('setting the page mode in Python', 'P24'), ('Python transition setters', 'P24'), ('contents of embedded files in Python', 'P24'),
 ('default document of a collection in Python', 'P24'), ('parent of a form field in Python', 'P24'), ('image interpolation in Python', 'P24'),
 ('optional content group names in Python', 'P24'), ('Python text objects on groups', 'P24'), ('the temporary file never', 'P11'), ('composite glyphs with scaled', 'P13'), ('glyph ids are checked for CFF', 'P12'), ('a glyph without a code point', 'P12'), ('embedded variable fonts have', 'P13'),
 ('font descriptor values', 'P13'), ('Unicode maps have at most', 'P12'), ('text widths at sizes', 'P12'), ('refuse to load a directory', 'P14'), ('text widths need', 'P14'), ('the largest glyph id', 'P14'), ('the text of a raw glyph', 'P12'), ('palette images', 'P17'), ('PNG images with', 'P17'), ('the alpha channel of a TIFF', 'P17'), ('TIFF images', 'P17'), ('loading an image that', 'P14'), ('CMYK JPEG', 'P17'), ('converting an image', 'P14'), ('refused images leave', 'P05'), ('JPEG images can not', 'P17'), ('PDF/X documents accept', 'P21'), ('mask images are checked', 'P17'), ('empty streams are streams', 'P04'), ('CFF fonts without optional', 'P13'), ('two byte numbers in CFF', 'P13'), ('real numbers in CFF', 'P13'), ('embedded CFF fonts have the font matrix', 'P13'), ('local subroutines can be', 'P13'), ('CID fonts can list', 'P13'), ('tables after an empty table', 'P13'), ('number signs in font names', 'P13'), ('fonts without a PostScript name', 'P13'), ('', '')]
f = os.path.join(ROOT, 'known_findings.txt')
old = [l for l in open(f).read().split('\n') if l.startswith('known:')] if os.path.exists(f) else []
out = ['# fixed: property=<id> <commit> <what failed>   (repaired in /repo; suppresses nothing)',
       '# known: property=<id> match=/regex/ <what fails>   (a finding that is recorded, not repaired)']
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '3c18b18..'], capture_output=True, text=True).stdout.split('\n'):
    if ' fix: ' not in l: continue
    h, s = l.split(' fix: ', 1); p = next(p for k, p in MAP if s.startswith(k))
    if not p: print('no property for', l)
    out.append('fixed: property=%s %s %s' % (p or 'P14', h, s))
open(f, 'w').write('\n'.join(out + old) + '\n')
