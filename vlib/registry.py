"""Which function decides which property, and with what method."""
TYPESTATE = 'abstract interpretation with typestate tags over the type-checked syntax trees, calls analysed in place'
REFUSE = 'must-refuse dataflow: abstract interpretation of each operation under an assumed bad state, every exit must raise'

CHECKS = {
    'P01': ('storage', 'p01', TYPESTATE),
    'P02': ('storage', 'p02', TYPESTATE),
    'P03': ('storage', 'p03', TYPESTATE),
    'P05': ('storage', 'p05', REFUSE),
    'P06': ('image', 'p06', TYPESTATE),
    'P09': ('lifecycle', 'p09', REFUSE + '; path-wise count balance'),
    'P10': ('lifecycle', 'p10', 'interprocedural exception-escape analysis of destructors'),
    'P11': ('nodes', 'p11', REFUSE + '; typestate of parent links'),
    'P12': ('trees', 'p12', 'assumption-driven abstract interpretation of type comparison and of every operation that adds a child'),
    'P13': ('nodes', 'p13', TYPESTATE),
    'P14': ('nodes', 'p14', 'dataflow of node-kind facts to every downcast'),
    'P31': ('trees', 'p31', REFUSE + '; character-class dataflow over name parsing'),
    'P29': ('errors', 'p29', 'constant evaluation of the description function over the enumeration; dataflow through the exception class'),
    'P30': ('errors', 'p30', 'exception-flow analysis: throw types, abstract interpretation of every handler, escape analysis over the call graph'),
    'P32': ('blob', 'p32', REFUSE + '; symbolic comparison of file positions'),
    'P20': ('buffers', 'p20', 'abstract interpretation of every buffer operation per memory representation; symbolic comparison of addresses'),
    'P21': ('buffers', 'p21', 'abstract interpretation of every buffer operation per representation and flag; constant propagation of boundary values'),
    'P33': ('transfer', 'p33', REFUSE + ' over lists of buffers'),
    'P22': ('packets', 'p22', 'abstract interpretation of source with byte-level memory: bytes reaching the file against the format'),
    'P23': ('packets', 'p23', 'must-refuse: abstract interpretation of source on malformed contents, byte-level memory'),
    'P24': ('packets', 'p24', 'abstract interpretation of source with byte-level memory; typestate of packet pointers and locks'),
    'P25': ('transfer', 'p25', 'abstract interpretation of source: counters over all paths of writing, closing, decoding and reading'),
    'P26': ('simple', 'p26', 'abstract interpretation of source: the tree of elements built by the simple writer, with labelled members, handed to the simple reader'),
    'P27': ('simple', 'p27', 'abstract interpretation of source: allocation, binding and release of the point buffers for each set of fields'),
    'P28': ('simple', 'p28', 'abstract interpretation of source: unusable descriptions handed to the simple writer over an abstract tree of elements'),
    'P15': ('xml', 'p15', 'abstract interpretation of source: the text writeXml gives for each shape of element, followed through the XML handler'),
    'P16': ('xml', 'p16', 'abstract interpretation of source: malformed elements handed to the XML handler'),
    'P17': ('texts', 'p17', 'call-graph closure of XML writing and reading; must-analysis of the locale of each stream a number goes through'),
    'P18': ('coders', 'p18', REFUSE + ' over field bounds'),
    'P19': ('coders', 'p19', 'bit-level dataflow through encoders and decoders (abstract interpretation of source)'),
    'P04': ('offsets', 'p04', 'units analysis: the coordinate system of every file position followed from declarations, conversions and offset modes to each use'),
    'P36': ('effects', 'p36', 'escape and effect analysis of static storage and process-wide calls over every function; typestate of the XML platform'),
    'P37': ('effects', 'p37', 'interprocedural effect analysis of every query of the public interface'),
    'P07': ('owners', 'p07', 'ownership analysis: each raw acquisition followed on every normal and exceptional path, owning fields through destructors and methods'),
    'P08': ('lifecycle', 'p08', REFUSE),
}

NOT_APPLICABLE = {
    'P34': 'a statement about the values produced by running encoder and decoder back to back; no sound static argument in '
           'reach bounds those computations (the agreements it rests on are decided separately as P15, P18, P19, P21, P26)',
    'P35': 'quantifies over running time and memory as a function of file contents; loop bounds depend on data read at run '
           'time and on the XML parser, so no static bound in reach is sound',
}
