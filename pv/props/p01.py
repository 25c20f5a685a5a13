"""Directory readers access file bytes only in range."""
from . import _bounds

WRITERS = ('rebuild_', 'realign_', 'calculate_resource_data_space', 'add_section', 'write_')
ANCHORS = ['get_exported_functions', 'get_imported_functions_base', 'get_tls_info_base', 'get_debug_information', 'get_bound_import_module_list',
           'rebase_image_base', 'process_resource_directory', 'get_rich_data', 'pe_base::section_data_from_rva', 'section::get_name',
           'get_image_config_base', 'get_relocations', 'get_exception_directory_data', 'get_basic_dotnet_info', 'entropy_calculator::calculate_entropy']


def sel(f):
    b = f.file.rsplit('/', 1)[-1]
    n = f.short.split('<')[0].split('::')[-1]
    if b.startswith('resource_') or b.startswith('pe_rebuilder'):
        return False
    return not n.startswith(WRITERS)


def run(ck):
    _bounds.run(ck, sel, 20, 100, ANCHORS)
    ck.explanation = ('Every load, copy, C-string read and container element access of the directory readers is an obligation 0 <= offset and '
                      'offset + size <= length; it is discharged when the branch conditions on every path to it imply it by linear arithmetic.')
    ck.assumptions = ['string, vector and C string lengths are at most 2^31', 'a section does not cover header bytes (the loader rejects SizeOfHeaders above the first section, P05)']
