"""Resource decoders access resource bytes only in range."""
from . import _bounds

ANCHORS = ['resource_bitmap_reader::create_bitmap', 'resource_cursor_icon_reader::check_cursor_presence', 'resource_cursor_icon_reader::check_icon_presence',
           'resource_cursor_icon_reader::get_cursor_by_id', 'resource_cursor_icon_reader::get_cursor_by_name', 'resource_cursor_icon_reader::get_icon_by_name',
           'resource_cursor_icon_reader::get_icon_by_id', 'resource_message_list_reader::parse_message_list', 'resource_string_table_reader::parse_string_list',
           'resource_version_info_reader::get_version_info', 'resource_cursor_icon_writer::remove_cursors_from_cursor_group', 'resource_cursor_icon_writer::remove_icons_from_icon_group']


def sel(f):
    b = f.file.rsplit('/', 1)[-1]
    n = f.short.split('<')[0]
    if n.endswith(('::add_icon', '::add_cursor', '::set_version_info')):
        return False
    return b.startswith('resource_')


def run(ck):
    _bounds.run(ck, sel, 14, 180, ANCHORS)
    ck.explanation = ('Every access of the icon, cursor, bitmap, string table, message table and version information decoders to resource bytes is an '
                      'obligation 0 <= offset and offset + size <= length, discharged when the branch conditions on every path imply it.')
    ck.assumptions = ['string, vector and C string lengths are at most 2^31']
