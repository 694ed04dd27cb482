from . import pack, unpack, headers, meta, append, numbers, arrays, effects, cli, logs, objects, interfaces, forwards, bounded, reports, returned
RULES = {
    'C01': (pack.c01, 'Chunk plan partitions the input exactly'),
    'C02': (pack.c02, 'Packing handles every chunk, in order'),
    'C03': (unpack.c03, 'Unpacking restores every chunk, in order'),
    'C04': (unpack.c04, 'Chunk digests are verified before data is released'),
    'C05': (pack.c05, 'Chunk digests'),
    'C06': (meta.c06, 'Metadata digests'),
    'C07': (headers.c07, 'Layout of the file header'),
    'C08': (headers.c08, 'Layout of the metadata header'),
    'C09': (headers.c09, 'Algorithm tables'),
    'C10': (headers.c10, 'Foreign headers are rejected'),
    'C11': (headers.c11, 'Ranges of header fields'),
    'C12': (pack.c12, 'Sections and offsets'),
    'C13': (meta.c13, 'The metadata section has a fixed size'),
    'C14': (meta.c14, 'The metadata header tells how the metadata is stored'),
    'C15': (append.c15, 'Appending refuses before it writes'),
    'C16': (append.c16, 'Appending keeps the file consistent'),
    'C18': (arrays.c18, 'Object arrays are rejected'),
    'C19': (arrays.c19, 'Arrays are packed whole'),
    'C20': (arrays.c20, 'Unpacking stays within the array'),
    'C17': (numbers.c17, 'The reserved append capacity is always valid'),
    'C21': (effects.c21, 'File content is never executed'),
    'C22': (effects.c22, 'Inputs are only read'),
    'C23': (cli.c23, 'The command line never overwrites without --force'),
    'C25': (cli.c25, 'Command line failures are reported'),
    'C24': (effects.c24, 'Opened files are closed'),
    'C26': (cli.c26, 'Command line options reach the library'),
    'C27': (forwards.c27, 'Arguments are passed on; old names equal new names'),
    'C28': (effects.c28, 'Deterministic and stateless'),
    'C29': (effects.c29, 'Arguments are not modified'),
    'C30': (bounded.c30, 'Files are processed chunk by chunk'),
    'C31': (logs.c31, 'Verbosity changes only what is printed'),
    'C32': (objects.c32, 'Argument objects and headers are mappings with the documented keys'),
    'C33': (interfaces.c33, 'Sources and sinks implement what the core uses'),
    'C34': (reports.c34, 'The info command shows what the file contains'),
    'C35': (reports.c35, 'Sizes for human readers'),
    'C36': (returned.c36, 'Metadata comes back as it was stored'),
}
TECHNIQUE = {}
# rules that are cheap enough to run over all their contexts on every change
ALWAYS_DEEP = ('C01', 'C02', 'C03', 'C05', 'C06', 'C12', 'C13', 'C14', 'C15', 'C16', 'C19')
