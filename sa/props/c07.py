from includes import include1, include2, include3
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR over concrete texts and a modelled file system, compared with the text in which the included files stand in place'
EXPLAIN = ('tokenize is interpreted on trees of files (a modelled file system with directories, globbing, canonical paths and reading): every kind of item in the including and the included file, nested includes up to five files deep, paths through subdirectories and parents from several start paths with files of the same name elsewhere, patterns with several matches or none. The parsed journal equals, field by field and in order, what tokenize makes of the text with the files in place. Cycles of one to four files, spelled in several ways or met through a pattern, are errors (reading a file again and again is reported), files included twice without a cycle are not; an error in an included file is an error.')
ASSUME = ['the glob crate lists matching paths in alphabetical order; symbolic links are not modelled', 'the std collections, iterators and string functions behave as documented (they are replaced by models)',
          'include trees are sampled by shape (files, depths, spellings)']


def run(ctx):
    par(ctx, include1, include2, include3)
