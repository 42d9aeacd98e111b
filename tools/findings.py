for p, c in [('C01', 'SourceClip'), ('C02', 'Composition')] + [('C04', c) for c in (
        'MSMLocator', 'Position', 'BOBPosition', 'DIDPosition', 'MPGPosition', 'MobRef', 'Marker')]:
    op(p, '%s without mob id block:rewrite' % c, 'a %s read from a record without the (optional) full mob id block cannot be '
       'written again: write() raises AttributeError on mob_id' % c)
fx('C06', 'doubles of big-endian', 'doubles of big-endian files were written and read in little-endian order')
fx('C06', 'edit rates exactly', 'edit rates were truncated (0.29 stored as 0.28) and 5994 was stored as 59.94')
fx('C06', '65535 encoded bytes', 'a string of 65535 encoded bytes was stored as the no-string marker')
fx('C06', 'repeated hour', 'timestamps in the repeated hour at the end of summer time moved by an hour')
fx('C03', 'MPGADescriptor', 'MPGADescriptor.sub_frame_alignment of 2**63 and more could be read but not written')
fx('C04', 'BinRef', 'a BinRef without name_utf8 could be read but not written')
fx('C02', 'mob id of an AudioSuite', 'AudioSuitePluginEffect with a material number >= 2**31 in a half could not be written')
fx('C02', 'end a TrackGroup', 'a plain TrackGroup record could be written but not read back')
fx('C05', 'bin format descriptors', 'more than 32767 bin format descriptors could be written but not read back')
fx('C06', 'read edit rates back', 'an edit rate such as 0.57 was read back as 0.5700000000000001')
fx('C06', 'mantissa is 0x7FFFFFFF', 'an edit rate with mantissa 2147483647 lost its last digit')
op('C11', 'ambiguous text', 'the text form of a mob id that is not half-swapped but has Data1 060e2b34, Data2 7f7f and label byte '
   '11 zero reads back as the half-swapped id with the same text')
fx('C13', 'keyframes at the same time', 'with two keyframes at the same time, nearest_index did not return the last one and the '
   'value of a linear curve there raised ZeroDivisionError')
op('C14', 'stale lookup', 'a mob whose item was removed from the items list directly (there is no method for it) after a look-up is still '
   'found by its id, until the file is reopened')
fx('C15', 'refer to each other in a cycle', 'listing dependant mobs never ended when mobs refer to themselves or each other in a cycle')
fx('C09', 'clear, sort and reverse', 'clear, sort and reverse of a reference list did nothing')
fx('C09', 'search and slice', 'remove, index, count and in never found a stored object of a reference list, slices returned raw references')
fx('C09', '+= and *= on reference', '+= and *= on a reference list did not register the owner as modified')
fx('C09', 'popitem and move_to_end', 'popitem and move_to_end on attributes did not register them as modified, popped references were not resolved')
fx('C09', 'values of attributes', 'values() of attributes returned raw references')
fx('C18', 'list defaults', 'list defaults of properties were shared by all objects of a class')
fx('C18', 'default columns', 'the default columns were shared by all bin view settings')
fx('C18', 'AudioSuite plug-ins', 'an ASPIPlugin could neither be created nor copied')
fx('C18', 'reject unknown mob types', 'a new mob was named after its type, an unknown mob type was not rejected')
fx('C18', 'each creator', 'a creator obtained from the factory created the class asked for last')
fx('C10', 'equal to and independent', 'copies had defaults for properties the source lacks, shared mob ids, byte arrays, nested lists and dicts with '
   'the source, and lists with null references could not be copied')
fx('C10', 'attributes that have a null', 'attributes with a null reference could not be copied')
fx('C08', 'object of another file', 'a reference to an object of another file was stored as the object of this file with the same number')
fx('C18', "name be passed by keyword", "create.Composition(name=...) raised TypeError")
fx('C16', 'truncated records in the compiled', 'the compiled reader read zeros behind the end of a truncated record')
fx('C16', 'ignore errors of the parts', 'the compiled reader accepted records with a wrong marker or an unknown block in their first parts')
fx('C16', 'end of empty attributes', 'the compiled reader did not check the end marker of empty attributes')
fx('C16', 'negative numbers', 'the compiled reader read negative media_kind_id, usage_code, component_width and control point values as large positive numbers')
fx('C16', 'offsets of control points', 'the compiled reader gave tuples for offsets of control points')
fx('C16', 'empty names of components', "the compiled reader gave '' for empty names and effect ids of components")
fx('C16', 'owner of reference lists', 'the compiled reader did not set the owner of Sequence.components, so edits were not saved')
fx('C16', 'resolve references in values', 'values() of properties read by the compiled reader gave raw references')
fx('C16', 'end of track effects', 'the compiled reader did not check the end marker of TKFX, MDES and DIDD records')
fx('C16', 'selected track', 'the compiled reader accepted a selector whose selected track does not exist')
fx('C16', 'zero bytes around text', 'the compiled reader kept zero bytes around text that the plain reader removes')
fx('C16', 'unknown kind of value also', 'the compiled reader accepted a parameter clip of an unknown kind of value when it has no control points')
