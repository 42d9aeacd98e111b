#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SER_WHY = ("The tests replay one captured chunk (or a handful) per class and one byte order; the optional blocks, "
           "boundary values, list lengths and their combinations are unbounded.")

prop("C01", "Timeline component records survive write and read exactly",
 "For every timeline component (sequence, source clip, timecode, edgecode, track reference, parameter and control curve, filler), writing it "
 "produces exactly the documented record layout of its fields in the requested byte order, and reading that record consumes all of it and "
 "yields a component whose fields all equal the originals. No in-range field value, list length or combination of optional blocks makes it "
 "fail, drop, truncate or swap data.",
 ["inputs", "configurations"],
 "all objects of these classes with field values in the range their record stores, all list lengths, all subsets of optional blocks, both byte orders",
 SER_WHY, ["src/avb/components.py"],
 [("read/write of Component, Sequence, Clip, SourceClip, Timecode, Edgecode, TrackRef, ParamClip, ControlClip, Filler", "src/avb/components.py")],
 ["obj.write(BytesIO) bytes", "obj.read(BytesIO) fields and position"])

prop("C02", "Track group, effect and mob records survive write and read exactly",
 "For every track group, effect, time warp, selector, transition and mob, writing it produces exactly the documented record layout of its fields, "
 "tracks (each with only the fields it has) and optional blocks in the requested byte order, and reading that record consumes all of it and yields "
 "equal fields. No in-range field value, number of tracks, plug-ins chunks or bands, or combination of optional parts makes it fail, drop, truncate or swap data.",
 ["inputs", "configurations"],
 "all objects of these classes with field values in the range their record stores, all track lists and per-track field subsets, all subsets of optional blocks, both byte orders",
 SER_WHY, ["src/avb/trackgroups.py"],
 [("read/write of TrackGroup, TrackEffect, PanVolumeEffect, AudioSuitePluginEffect, EqualizerMultiBand, TimeWarp family, EssenceGroup, TransitionEffect, Selector, Composition; Track.flags", "src/avb/trackgroups.py")],
 ["obj.write(BytesIO) bytes", "obj.read(BytesIO) fields and position"])

prop("C03", "Essence descriptor records survive write and read exactly",
 "For every media descriptor (tape, film, nagra, file, multi, wave, AIFC, PCM, MPEG audio, digital image, CDCI, MPEG, JPEG, RGBA, data, ancillary data), "
 "writing it produces exactly the documented record layout of its fields and optional blocks in the requested byte order, and reading that record "
 "consumes all of it and yields equal fields. No in-range field value, table length or combination of optional blocks makes it fail, drop, truncate or swap data.",
 ["inputs", "configurations"],
 "all descriptor objects with field values in the range their record stores, all list/table lengths, all subsets of optional blocks, both byte orders",
 SER_WHY, ["src/avb/essence.py"],
 [("read/write of the MediaDescriptor class tree; encode_pixel_layout", "src/avb/essence.py")],
 ["obj.write(BytesIO) bytes", "obj.read(BytesIO) fields and position"])

prop("C04", "Locator, parameter, marker, tracker and position records survive exactly",
 "For every locator, graphic, shape, colour or effect parameter, marker, bin or mob reference, media position and tracker object, writing it produces "
 "exactly the documented record layout of its fields and optional blocks in the requested byte order, and reading that record consumes all of it and "
 "yields equal fields. No in-range field value, list length or combination of optional blocks makes it fail, drop, truncate or swap data.",
 ["inputs", "configurations"],
 "all objects of these classes with field values in the range their record stores, all list lengths, all subsets of optional blocks, both byte orders",
 SER_WHY, ["src/avb/misc.py"],
 [("read/write of every class in misc.py", "src/avb/misc.py")],
 ["obj.write(BytesIO) bytes", "obj.read(BytesIO) fields and position"])

prop("C05", "Bin, view setting, attribute and reference-list records survive exactly",
 "For every bin (small, large and first-bin form), bin view setting, attribute dictionary, parameter list and marker list, writing it produces exactly the "
 "documented record layout in the requested byte order, and reading that record consumes all of it and yields equal fields, items and entries in the same order. "
 "A bin of more than 65535 items is stored in the large form, and any smaller bin not flagged large is stored in the small form.",
 ["inputs", "configurations"],
 "all bins, view settings, attribute dictionaries of int/str/bytes/object values, and reference lists, of any length, both byte orders",
 SER_WHY, ["src/avb/bin.py", "src/avb/attributes.py"],
 [("read/write of Setting, BinViewSetting, Bin, BinFirst", "src/avb/bin.py"), ("read/write of Attributes, ParameterList, TimeCrumbList", "src/avb/attributes.py")],
 ["obj.write(BytesIO) bytes", "obj.read(BytesIO) fields and position"])

prop("C06", "Primitive codecs are exact inverses with exact byte order",
 "Every primitive value (8/16/32/64-bit integers, booleans, doubles, four-character codes, strings, UUIDs, mob ids, rectangles, colours, timestamps, edit rates) "
 "is written as exactly its documented bytes in the stream's byte order, and reading those bytes returns an equal value and consumes exactly them. "
 "A value that does not fit its encoding raises an error and is never silently wrapped, clipped or truncated.",
 ["inputs", "configurations"],
 "all integers (in and out of range), all byte strings, all encodable strings of any length, all UUIDs and mob ids, all timestamps, all edit rates representable as a 32-bit mantissa with at most six decimals, both byte orders",
 "No test targets the primitives directly; they are sampled only through a few little-endian records.",
 ["src/avb/ioctx.py"],
 [("AVBIOContext read_*/write_* methods and iter_ext", "src/avb/ioctx.py")],
 ["bytes written to the stream", "value returned and stream position"])

prop("C07", "A saved file's header and chunk table describe its contents exactly",
 "Saving produces a header with the right byte-order mark, magic, save time and creator version, the number of objects actually written, and the index of the root object; it is "
 "followed by exactly that many chunks, each carrying its object's class code, its exact byte length and its record. Opening such a file locates every chunk at its "
 "true position, returns the same header values and root, and lists its chunks, and its objects of given classes, completely and in order; data that is not such a file is refused.",
 ["inputs", "configurations"],
 "all object graphs (any number of objects of any record size), all creator strings and save times, both byte orders, all files so produced",
 "Tests save a few little-endian sample files and compare a handful of values; header fields, counts and positions for arbitrary graphs are never checked.",
 ["src/avb/file.py"],
 [("header, object count patching and chunk table", "src/avb/file.py AVBFile.__init__, write_header, write, write_object, read_chunk, chunks")],
 ["bytes of the saved file", "attributes of the reopened file"])

prop("C08", "Saved references resolve to the same objects, each stored once",
 "Saving stores every object reachable from the content exactly once, after all the objects it refers to, and every stored reference holds the stored position of precisely the "
 "object the source referred to (null stays null). Shared objects stay shared after reopening, and an object belonging to another file, not yet stored, or a reference "
 "outside the file's object table is rejected with an error and never stored or resolved as something else.",
 ["inputs", "histories"],
 "all acyclic object graphs with any sharing, nesting of lists and null references; all reference indices read from a file",
 "Tests write a few sample files; they do not check sharing, ordering or the identity of reference targets for arbitrary graphs.",
 ["src/avb/core.py", "src/avb/file.py", "src/avb/ioctx.py", "src/avb/utils.py"],
 [("depth-first reference walk", "src/avb/core.py walk_references"), ("index mapping while writing", "src/avb/file.py AVBFile.write, write_object"),
  ("reference encode/decode and validity check", "src/avb/ioctx.py write_object_ref/read_object_ref; src/avb/utils.py AVBObjectRef")],
 ["reference fields of stored records", "object identity after reopening"])

prop("C09", "Loaded objects keep identity and every edit is tracked",
 "While an object is alive, every access path to it in an open file (index, reference, list item, attribute entry) returns that one instance, loaded at most once; merely reading never marks "
 "anything as modified. Every edit of a stored object - assigning a field, or any mutating operation on a reference list or an attribute dictionary - takes effect with the semantics of the plain Python container and registers the owning object as modified, so it "
 "is neither dropped nor reloaded from disk.",
 ["histories", "inputs"],
 "all sequences of accesses and edits through object fields, reference lists and attribute dictionaries, on objects read from a file or newly created",
 "Tests perform a few single edits; list operations such as clear, sort and reverse and arbitrary interleavings with object reloads are never exercised.",
 ["src/avb/core.py", "src/avb/attributes.py", "src/avb/file.py"],
 [("object cache", "src/avb/file.py AVBFile.read_object"), ("modification marks", "src/avb/core.py AVBObject.__setattr__, AVBRefList methods; src/avb/attributes.py Attributes methods; src/avb/file.py add_modified")],
 ["object identity", "set of modified objects", "container contents after each operation"])

prop("C10", "A copied object is equal to its source and independent of it",
 "Copying an object into a file (the same or another) yields an object of the same class owned by the destination whose properties, attribute entries and list items equal the source's, with every "
 "contained object copied recursively and null references kept null, and with no property the source lacks. Afterwards no change to either object, including in-place changes "
 "to lists, dictionaries, byte arrays or mob ids they hold, is visible through the other.",
 ["inputs", "histories"],
 "all objects of all registered classes with any subset of properties set and any nesting of contained objects, lists and values; all later edits to either side",
 "One test copies the mobs of one sample; it never mutates the result nor checks missing properties or null references.",
 ["src/avb/core.py", "src/avb/attributes.py"],
 [("recursive copy", "src/avb/core.py AVBObject.copy, AVBRefList.copy; src/avb/attributes.py Attributes.copy")],
 ["property data of the copy", "aliasing between copy and source"])

prop("C11", "Mob id forms, equality, hashing and ordering agree",
 "For every 32-byte mob id, the integer form and the dictionary form determine the id and convert back to it exactly, the text form of an id converts back to the same id, each component "
 "accessor reads and writes exactly its own bytes, and the material UUID is the last sixteen bytes in little-endian UUID form. Equality, hashing and all order comparisons "
 "agree with comparing the 32 bytes, and newly generated ids carry the standard label.",
 ["inputs"],
 "all 2^256 identifiers (for the text form: all except the ids that are not half-swapped but whose text reads as if they were), all component values, all pairs for comparisons",
 "Tests check a few literal ids.",
 ["src/avb/mobid.py", "src/avb/utils.py"],
 [("accessors, urn, int, dict conversions, comparisons", "src/avb/mobid.py MobID"), ("int_from_bytes, bytes_from_int, unpack_u16le_from, unpack_u32le_from", "src/avb/utils.py")],
 ["values returned by the accessors"])

prop("C12", "Sequence length, positions and time lookup are consistent",
 "A sequence's length is the sum of its components' lengths with each transition counted negatively, and the position reported for each component is the running total before it, a transition starting "
 "its own length early. Looking up a time goes through the non-empty components in order and returns the index and position of the first transition that contains the time, or else of the component before the "
 "first later one starting at or after the time, or else of the last one ((0, 0) if there is none), always a component together with the position reported for it.",
 ["inputs"],
 "all sequences of any number of components of any lengths, transitions and empty fillers in any arrangement, all query times",
 "Tests query one sample timeline at a few times.",
 ["src/avb/components.py"],
 [("running totals", "src/avb/components.py Sequence.length, positions, nearest_index_at_time, nearest_component_at_time")],
 ["returned length, (index, position) pairs"])

prop("C13", "Keyframe lookup and constant or linear interpolation are right everywhere",
 "For keyframes in time order, the lookup returns the last keyframe at or before the given time (the first one if all are later). The value of the curve is the nearest end keyframe's value outside the keyframes' range, "
 "equals the keyframe's value at a keyframe time, is constant between keyframes for a constant curve, and for a linear curve lies on the straight line between its neighbours.",
 ["inputs"],
 "all curves with one or more keyframes in strictly increasing time order, all values, all query times",
 "Tests compare a few captured curves at sampled times.",
 ["src/avb/components.py", "src/avb/interpolation.py"],
 [("binary search and interpolation", "src/avb/components.py ParamClip.nearest_index, value_at; ParamControlPoint.time; src/avb/interpolation.py lerp")],
 ["returned index and value"])

prop("C14", "Bin lookup and mob filters always reflect the bin's items",
 "The bin yields exactly its items' mobs in item order, and the composition, master and top-level filters yield exactly those of the matching kind (top level: compositions with no special usage), in order. "
 "Adding a mob appends exactly one default-placed item for it, and looking a mob up by id returns the bin's mob with that id, or nothing if there is none, whether mobs were added before or after the first lookup.",
 ["histories", "inputs"],
 "all bins and all sequences of adding mobs and looking ids up, all mob kinds and usage codes",
 "Tests look up ids in static sample bins only.",
 ["src/avb/bin.py"],
 [("lazy id index kept up to date on add", "src/avb/bin.py Bin.find_by_mob_id, add_mob"), ("filters", "src/avb/bin.py Bin.mobs, toplevel, compositionmobs, mastermobs")],
 ["returned mobs", "items"])

prop("C15", "Dependent mobs are reported once each, dependencies first",
 "Listing the mobs a mob depends on yields exactly the other mobs reachable from it through source clips, each once, every one after all the mobs it refers to itself that do not depend on it in turn. "
 "The listing always terminates, also when mobs refer to themselves or to each other in a cycle or to mobs missing from the bin.",
 ["inputs"],
 "all finite dependency graphs between mobs, including sharing, missing mobs and cycles",
 "One sample's mobs are listed; no sharing, cycle or ordering condition is checked.",
 ["src/avb/trackgroups.py"],
 [("depth-first traversal with a visited set", "src/avb/trackgroups.py TrackGroup.dependant_mobs")],
 ["order of yielded mobs"])

prop("C16", "The compiled reader returns what the plain Python reader returns",
 "For every record class that the compiled reader handles and every well-formed little-endian record, loading it with the compiled reader gives the same object as the plain Python reader: "
 "the same set of properties with equal values and equal nested items and references. A record the plain reader rejects for a wrong marker, an unknown block or missing data is not silently accepted with made-up values.",
 ["inputs", "configurations"],
 "all well-formed little-endian records of the classes with a compiled reader: all field values, list lengths and optional blocks; and all truncations of them",
 "The same few sample chunks are loaded with both readers, with small positive values.",
 ["src/avb/_ext.pyx", "src/avb/_ext_core.cpp"],
 [("compiled record readers", "src/avb/_ext_core.cpp read_*"), ("conversion into objects", "src/avb/_ext.pyx process_*, reader functions, READERS")],
 ["property data produced by either reader"])

prop("C17", "Malformed records are rejected, never half-accepted",
 "Loading a record whose section or value markers differ from the expected ones, that contains an unknown optional block, has bytes missing anywhere in a fixed-size part, or "
 "has extra bytes after its end raises an error. A failed load leaves no partially read object behind: the object is not cached, and the file can go on loading other objects normally.",
 ["inputs", "fault_sequences"],
 "all single-marker corruptions, unknown block tags, truncations of fixed-size parts and trailing garbage of records of every class, both byte orders",
 "No test loads malformed data.",
 ["src/avb/file.py", "src/avb/ioctx.py", "src/avb/components.py", "src/avb/trackgroups.py", "src/avb/essence.py", "src/avb/misc.py", "src/avb/bin.py", "src/avb/attributes.py"],
 [("marker checks", "src/avb/ioctx.py read_assert_tag, iter_ext; every read method"), ("consumed-everything check and error path", "src/avb/file.py AVBFile.read_object")],
 ["exception raised", "object cache and reading state after the failure"])

prop("C18", "Newly created objects are complete, independent and correctly named",
 "Creating an object by class name gives an instance of that class owned by the file, registered for saving under an identifier no other object of the file has, with the arguments honoured and the documented defaults set. "
 "No two created objects share mutable state, so changing one never changes another or later created ones, and an unknown class or mob type is rejected.",
 ["inputs", "histories"],
 "all registered classes, all argument values, all sequences of creations and in-place edits, in new and opened files",
 "Tests create a few classes with default arguments and never look at two instances together.",
 ["src/avb/file.py", "src/avb/core.py", "src/avb/components.py", "src/avb/trackgroups.py", "src/avb/bin.py", "src/avb/misc.py"],
 [("factory", "src/avb/file.py AVBFactory"), ("default initialisation", "src/avb/core.py AVBObject.__init__ and the constructors of the classes")],
 ["attributes of created objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
