#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = "src/parser.rs"
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
ACC = "read access to the parsed tree's private fields (guarded module at the end of src/parser.rs)"
GEO = "re-export of the private geometry module (guarded module in src/lib.rs)"
L = []
L.append(prop("C01", "No text crashes or hangs the scene parser",
 "Parsing any Unicode text whatsoever returns either a scene or an error value: it never panics, overflows the stack, overflows arithmetic, or fails to return. This includes arbitrarily long runs of comments, blank space or digits, arbitrarily large exponents, unterminated strings, non-ASCII characters and deep block nesting (nesting beyond an implementation limit may be answered with an error). Printing the error does not panic either. Parsing the same text again, also after other texts or while other threads parse, gives the same outcome.",
 ["inputs", "histories", "schedules", "configurations"], "every text (random Unicode, token soup, corrupted scenes, very long runs), alone, after other texts and on several threads at once, in the single- and double-precision builds",
 "The existing tests parse about thirty short, mostly valid snippets; none is hostile, long, truncated or non-ASCII.",
 [P], [("character-level tokenizer returning errors instead of panicking", P + " impl Tokenizer"), ("recursive-descent parser returning errors", P + " impl Parser")],
 ["Parser::parse return value, process exit status"]))
L.append(prop("C02", "The parsed scene mirrors the text: nothing lost, added or reordered",
 "For every well-formed scene description, parsing yields exactly the pre-world directives and the world tree that the text spells out: same directives, same kinds, same type/name strings and file paths, same order, and the same nesting of attribute and transform blocks. Directives that follow a nested block inside the same enclosing block belong to that enclosing block. Nesting beyond an implementation limit (100 levels at present) may be rejected.",
 ["inputs", "configurations"], "every well-formed scene: any mix of pre-world directives, any tree of world directives and blocks, in both precision builds",
 "Tests cover two fixed scene files whose only nested block is the last item; no other tree shape, directive kind or ordering is ever parsed.",
 [P], [("directive dispatch", P + " parse_directive / parse_predirective"), ("block recursion and block ends", P + " parse_directives"), ("top-level sequence", P + " parse_predirectives / Parser::parse")],
 ["Parser::parse result"], ACC))
L.append(prop("C03", "Parameters keep their type, name, order and values",
 "Every typed parameter written after a directive (integer, float, bool, string, point2, vector2, rgb, xyz, blackbody, spectrum samples, spectrum file, texture) appears exactly once in that directive's parameter set, under the list for its type, with its name and all its values in source order, and parameters of one type keep their relative order. A single bare value means the same as a one-element bracketed list for the types that allow both, and integers are accepted where floats are expected.",
 ["inputs", "configurations"], "every directive that takes parameters, every list of parameters of all supported types, names and lengths, bare or bracketed, in both precision builds",
 "Tests try single parameters of six of the twelve types with one to six values; xyz, blackbody, vector2, string lists, texture mixes and long or repeated parameters are never parsed.",
 [P], [("typed parameter dispatch", P + " parse_param_list"), ("list parsing", P + " parse_list / parse_list_of_n / parse_many / parse_n / parse_spectrum")],
 ["Parser::parse result: parameter sets of the directives"], ACC))
L.append(prop("C04", "Numeric literals mean the number they spell",
 "A decimal literal, with optional sign, fraction and exponent, is read as the number it denotes: exactly for integers in the 64-bit range, and to within rounding of the configured float precision otherwise. A literal that cannot be represented is rejected or becomes the nearest float (including infinity or zero); it never turns into a different finite number, a fractional literal is never accepted as an integer, and one with digits other than 0 to 9 is not accepted at all. This holds in every place where a number may stand.",
 ["inputs", "configurations"], "every literal: any number of digits, leading zeros, any sign, fraction and exponent form, used where an integer or a float is expected, in both precision builds",
 "Tests read eight literals; none has a large exponent, an overflow, an underflow, many digits or a '+' sign.",
 [P], [("number scanner", P + " tokenize_num"), ("int/float acceptance", P + " parse_int / parse_float")],
 ["values in the parsed scene"], ACC))
L.append(prop("C05", "String literals are read back exactly",
 "Any string written between double quotes, with quote and backslash escaped by a backslash and newline either raw or as backslash-n, is read back character for character: an escaped character other than 'n' stands for itself, and every other character (including '#', brackets, blanks, line breaks and non-ASCII text) stands for itself. This holds wherever strings occur: directive types, names, file paths and string-valued parameters.",
 ["inputs", "configurations"], "every string content and every way of escaping it, in every string position",
 "Tests contain only plain ASCII words with no escape, blank or special character.",
 [P], [("string scanner with escapes", P + " tokenize_str"), ("string consumers", P + " parse_string / parse_spectrum / parse_directive")],
 ["strings and paths in the parsed scene"], ACC))
L.append(prop("C06", "Source positions are exact",
 "Every directive, block and parameter in the parsed scene carries the 1-based line and column, counted in characters, at which it starts in the text. This holds whatever precedes it: comments, tabs, multi-line strings, escapes, non-ASCII characters, and CRLF line endings, which count as a single line break.",
 ["inputs", "configurations"], "every well-formed scene in every layout",
 "Tests check positions for two fixed LF-only ASCII files.",
 [P], [("position bookkeeping per character", P + " Tokenizer::next"), ("start position capture", P + " tokenize_* and parse_directive / parse_predirective / parse_param_list")],
 ["positions of the parsed directives and parameters"], ACC, [("pos", "line and column of the next character", P + " Tokenizer")]))
L.append(prop("C07", "Layout, comments and line endings never change the meaning",
 "Two texts made of the same tokens but with different blank space (any Unicode white space), line breaks, LF or CRLF endings and '#'-comments between them parse to the same scene, positions aside. A comment runs to the end of its line (or of the text) and its content is irrelevant.",
 ["inputs", "configurations"], "every scene and every pair of layouts of it, including layouts that put no blank between tokens that do not need one",
 "Tests contain three comments and two fixed layouts; no scene is parsed in two layouts.",
 [P], [("blank and comment skipping", P + " tokenize_one"), ("CRLF normalisation", P + " Tokenizer::new")],
 ["Parser::parse results of the two texts"], ACC))
L.append(prop("C08", "Malformed scenes are rejected, never silently repaired",
 "A text that is not a well-formed scene is rejected with an error: an unknown directive or parameter type, a missing or surplus value, an empty or unclosed list, an odd number of spectrum samples, a value of the wrong kind, a missing or mismatched block end, a missing world block, text other than comments and blanks after the world block, or a scene cut short before its world block is closed. No parameter, directive or block is dropped in order to make the rest parse.",
 ["inputs", "configurations"], "every text obtained from a well-formed scene by deleting, inserting, duplicating, swapping, replacing or truncating tokens or characters, whenever the result is no longer well formed",
 "Tests try seven malformed fragments against isolated helper functions; no whole malformed scene is ever parsed.",
 [P], [("error propagation through the recursive descent", P + " parse_param_lists, parse_list, parse_directives"), ("arity checks", P + " parse_list_of_n, parse_spectrum, parse_predirective")],
 ["Parser::parse Ok/Err"], ACC))
L.append(prop("C09", "Transform directives take exactly their numbers, in order",
 "Each transform directive is accepted with exactly the amount of numbers it needs (translate 3, scale 3, rotate 4, look-at 9, matrix 9, concatenated matrix 9, transform times 2), and every number ends up at its own place, in source order. With any other count it is rejected; the named and parameterless ones (identity, coordinate system, coordinate-system transform, active transform) take exactly their single argument or none.",
 ["inputs", "configurations"], "every transform directive, every count of numbers from none to well above the required one, every mix of integer and float literals",
 "Tests parse one translate and one look-at; no other transform, count or ordering is exercised.",
 [P], [("arity checks and placement", P + " parse_predirective")],
 ["Parser::parse result"], ACC))
L.append(prop("C10", "Errors point at the fault",
 "When a scene is rejected because of an illegal character or a misplaced token and the error message names a position, that position lies inside the text, not after the offending character or token and not before the directive that contains it. For an illegal character (one that begins no token, or a second point or second exponent in a number), and for a misplaced token in the place of a directive, of an element of a single-valued list, of a closing bracket, or after the world block, the message names a position, and it is exactly that of the offender.",
 ["inputs", "configurations"], "every well-formed scene corrupted at one place, in every layout",
 "One test checks the position in one tokenizer message; no parser error position is checked.",
 [P], [("positions carried in error messages", P + " error construction in tokenize_* and parse_*")],
 ["error value of Parser::parse"], None))
M = "src/core/matrix.rs"; T = "src/core/transform.rs"; V = "src/core/vector.rs"; N = "src/core/normal.rs"; Q = "src/core/point.rs"; B = "src/core/boundingbox.rs"; R = "src/core/ray.rs"; C = "src/core/mod.rs"
L.append(prop("C11", "A matrix times its inverse is the identity; singular input is refused",
 "For every invertible 4x4 matrix, of integers or floats, multiplying it by its computed inverse on either side gives the identity up to rounding that is proportional to how well conditioned it is, wherever its zeros and large entries lie. A matrix with a zero row, a zero column or only one independent direction is refused instead of yielding numbers.",
 ["inputs", "configurations"], "every 4x4 matrix: dense, sparse, permutation, badly row-ordered, scaled, integer- and float-valued, invertible or exactly singular",
 "One test inverts one fixed matrix; singular matrices and other pivot orders are never tried.",
 [M], [("Gauss-Jordan elimination with full pivoting", M + " Matrix4::inverse"), ("conversion to floats", M + " to_mat4f")],
 ["result of the matrix inverse, public API"], None))
L.append(prop("C12", "Matrix operations obey matrix algebra",
 "Matrix product, sum and transpose agree with their mathematical definition entry by entry, so products are associative and distribute over sums, the identity is neutral, and the transpose of a product is the product of the transposes in reverse order. Reading row r, column c gives the entry that was put there, and results do not depend on whether entries are integers or floats of the same value.",
 ["inputs", "configurations"], "all 4x4 integer matrices whose results fit, and all float matrices with exactly representable results",
 "One test multiplies one fixed pair; sum, transpose, indexing and float products are untested.",
 [M], [("product, sum, transpose, indexing", M)],
 ["results of matrix operations, public API"], None))
L.append(prop("C13", "A transform and its stored inverse undo each other",
 "Every transform (translation, scaling with non-zero factors, or built from any invertible matrix) has an inverse whose matrix is the true inverse of its own matrix, up to rounding. Inverting twice gives the original back, and transposing keeps the pair mutually inverse.",
 ["inputs", "configurations"], "all offsets, all non-zero scale factors, all well-conditioned matrices, and chains of invert/transpose",
 "No test touches transforms.",
 [T, M], [("matrix/inverse pair maintained by each constructor", T + " Transform::{new_, translate, scale, inverse, transpose}")],
 ["matrices of a transform and of its inverse"], GEO, [("m, m_inv", "matrix and its inverse", T)]))
L.append(prop("C14", "Transforms act on vectors as their matrix says and are classified correctly",
 "Transforming a direction vector multiplies it by the upper-left 3x3 part of the matrix, so it is linear and unaffected by translation; translation and scaling matrices are the ones their parameters describe. A transform is reported as identity exactly when its matrix is the identity, and as scaling exactly when it changes the squared length of some axis vector by more than a thousandth.",
 ["inputs", "configurations"], "all transforms and vectors (integer or float), including single-entry deviations from the identity",
 "No test touches transforms or vectors.",
 [T, V, C], [("vector transformation", V + " Vector3::transform"), ("classification", T + " is_identity / has_scale, " + C + " not_one"), ("constructors", T + " translate / scale")],
 ["transformed vectors, classification results"], GEO))
L.append(prop("C15", "Vector, normal and point arithmetic is exact component-wise algebra",
 "Sum, difference, negation, scaling, division, absolute value, dot product, cross product and length of vectors, normals and points agree with their mathematical definition for every component, for integers and for floats, and division by a factor undoes multiplication by it; dividing a 2D vector by zero is refused. By-value and by-reference forms give the same result, a point plus the difference to another point is that other point, and a cross product is orthogonal to both factors.",
 ["inputs", "configurations"], "all component triples (integer or float) whose results are representable, all pairs and scalars",
 "No test touches vectors, normals or points.",
 [V, N, Q], [("operator implementations", V + ", " + N + ", " + Q)],
 ["results of the operators"], GEO))
L.append(prop("C16", "Component selection picks the right component",
 "Component-wise minimum and maximum of two vectors, normals or points, smallest and largest component, index of the largest component (the last of them if several are), permutation of components, rounding down or up, and facing a vector into another's hemisphere (turning it round exactly when their dot product is negative) return the component or vector their definition names, for every order and sign of the components, ties included. Minimum and maximum of a list are its least and greatest element, and a component index that does not exist is refused.",
 ["inputs", "configurations"], "all component triples including ties, zeros, negative and infinite values; all index triples; all non-empty lists",
 "No test touches these functions.",
 [V, N, Q, C], [("selection functions", V + " / " + N + " min..max_dimension, permute, face_forward"), ("list extrema", C + " pmin / pmax"), ("rounding", Q + " floor / ceil")],
 ["results of the selection functions"], GEO))
L.append(prop("C17", "Derived frames are orthonormal and interpolation is affine",
 "The coordinate system built around any unit vector consists of unit vectors that are perpendicular to it and to each other and form a right-handed frame with it. Linear interpolation of numbers and of points gives the first end at 0, the second at 1, and in between the value at that fraction of the way, also when extrapolating.",
 ["inputs", "configurations"], "all unit vectors, including axis-aligned ones and ones with equal or tiny components; all end points and fractions",
 "No test touches these functions.",
 [V, Q, C], [("basis construction", V + " coordinate_system"), ("interpolation", C + " lerp, " + Q + " lerp")],
 ["returned vectors, points and numbers"], GEO))
L.append(prop("C18", "Bounding boxes behave as sets of points",
 "A box made from any two points spans exactly the points between them and the infinite box contains every point; the union with a point or box is the smallest box containing both; a point lies in the intersection of two boxes exactly when it lies in both, so disjoint boxes intersect in a box that contains nothing; and two boxes made from points overlap exactly when they share a point. Containment includes both faces, the exclusive variant leaves out the upper faces only, growing a box by a non-negative amount moves each face out by that amount, and the eight corner numbers name the eight corners with one bit per axis: bit 0 selects x, bit 1 y and bit 2 z, a set bit meaning the same side on every axis, so that 0 and 7 are the two ends of the diagonal.",
 ["inputs", "configurations"], "all boxes (integer or float; degenerate, touching, nested, disjoint) and all probe points, chosen on, next to and away from the faces",
 "No test touches bounding boxes.",
 [B, C], [("corner ordering on construction", B + " Bounds3::new"), ("set operations", B + " union_pt / union / intersect / overlaps / inside / inside_exclusive / expand / corner")],
 ["results of the box operations"], GEO))
L.append(prop("C19", "Box measures are geometrically right",
 "Diagonal, surface area, volume and longest axis (the last of them if several are) of a box agree with its side lengths; the bounding sphere is centred in the box and passes through every corner, and an empty box has one of radius zero. The relative offset of a point is 0 at the lower and 1 at the upper corner on each axis of non-zero extent, and interpolating inside the box by that offset gives the point back.",
 ["inputs", "configurations"], "all boxes, cubes, flat and degenerate ones included, integer or float, and all probe points",
 "No test touches bounding boxes.",
 [B], [("measures", B + " diagonal / surface_area / volume / maximum_extent / offset / bounding_sphere / lerp")],
 ["results of the box measures"], GEO))
L.append(prop("C20", "Iterating a 2D integer region visits every cell exactly once",
 "Iterating over a two-dimensional integer region yields every integer point from its lower corner up to, but not including, its upper corner on each axis, each exactly once, row by row with x running fastest. Regions without cells yield nothing, and negative or non-zero lower corners make no difference other than shifting the points. This is so in whatever way the iterator is advanced (next, nth, skip, step_by, take, find, ...) and finished (collect, count, last, fold, ...), and while another iterator is in use; size_hint never contradicts it.",
 ["inputs", "configurations"], "all integer regions: negative, offset, empty, one-row, one-column, large",
 "No test iterates a region.",
 [B], [("region iterator", B + " Bounds2 IntoIterator / Bounds2Iter::next")],
 ["sequence of points yielded"], GEO, [("x, y", "cursor of the iteration", B + " Bounds2Iter")]))
L.append(prop("C21", "Rays evaluate affinely and differentials scale around the main ray",
 "The point at parameter t on a ray is its origin plus t times its direction; a ray keeps the origin, direction, limit and time it was given, and an unbounded one has no limit and time zero. A new ray differential has none switched on, and scaling differentials by s multiplies the distance of each offset origin and direction from the main ray by s, leaving the main ray alone, so successive scalings multiply.",
 ["inputs", "histories", "configurations"], "all rays, parameters, differentials and sequences of scalings",
 "No test touches rays.",
 [R], [("evaluation", R + " Ray::at"), ("construction", R + " Ray::new / new_infinite / RayDifferential::new"), ("scaling", R + " scale_differentials")],
 ["points on rays, fields of rays and differentials"], GEO))
L.append(prop("C22", "Conversions between geometric types keep coordinates and refuse NaN",
 "Converting between vectors, points and normals keeps every coordinate in place, and projecting a 3D point to 2D keeps x and y. A point is reported as containing NaN exactly when one of its coordinates is NaN, and the projection of such a point is refused.",
 ["inputs", "configurations"], "all coordinate triples, with and without NaN or infinity in any position, integer or float",
 "No test touches these conversions.",
 [Q, V, N, C], [("From implementations", Q + ", " + V + ", " + N), ("NaN detection", C + " HasNan / ElemType::is_nan")],
 ["converted values"], GEO))
L.append(prop("C23", "Equality compares all the contents and nothing else",
 "Two parse results (scenes, directives, blocks, parameters) compare equal exactly when they hold the same directives, strings, parameters, values and source positions in the same order. Two vectors, points, normals, matrices or transforms compare equal exactly when all their components (for a transform, its matrix and its inverse) are equal as numbers, so that not even a difference in the last place goes unnoticed, and NaN equals nothing. Comparison is symmetric, and a copy equals its original.",
 ["inputs", "configurations"], "all pairs of texts that parse, differing anywhere or nowhere, and all pairs of geometric values, differing in any component by any amount, integer or float",
 "Every existing test relies on == for its verdict, so none of them can notice that it ignores something.",
 [P, V, Q, N, M, T], [("derived comparison of the parsed tree", P + " PreDirective / Directive / ParamSet / Param / Pos"), ("derived comparison of geometric types", V + ", " + Q + ", " + N + ", " + M + ", " + T)],
 ["results of == and !="], ACC + "; " + GEO))
for p in L: assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L), "properties")
