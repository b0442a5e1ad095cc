PA = ['svgpy/path.py']
PI = 'path-sensitive abstract interpretation of the syntax trees'


def define(prop, na):
    prop('D01', 'Refused tree operations change nothing',
         '''Inserting a node that cannot be a child (an attribute, a
         document) is refused with a DOM error by every insertion operation
         of elements and documents, and so is a reference node that is not a
         child. When an insertion, replacement or removal is refused, no node
         was linked, unlinked or changed owner, also when several nodes are
         passed and only a later one is refused. Elements, comments and
         processing instructions are accepted.''',
         ['inputs', 'histories'],
         'every insertion/replacement/removal operation of every node class '
         'x every combination of argument node kinds x every path',
         '''Tests call each operation with a few nodes and look at the
         exception only; the state left after a refusal of the second of two
         nodes is never inspected.''',
         ['svgpy/dom.py', 'svgpy/window.py'],
         [('insertion and removal validity checks', 'svgpy/dom.py'),
          ('Document tree operations', 'svgpy/window.py')],
         PI + ' over node-kind scenarios; effect-before-raise rule',
         '''Every path of every operation within loop bound 2 (3 thorough);
         trusts that lxml links exactly the node it is handed.''')
    prop('D02', 'Linked and created nodes belong to the document',
         '''A node inserted by any insertion operation into a tree owned by a
         document, or made the document element, reports that document as its
         owner afterwards, and so do its child nodes. Every node a document's
         factory methods create reports that document as its owner. Detaching
         an element clears the ownership of it and its child nodes.''',
         ['inputs', 'histories'],
         'every insertion operation and factory method x node kinds x paths',
         '''Tests check ownership after append and a few factories only; each
         insertion operation propagates ownership on its own.''',
         ['svgpy/dom.py', 'svgpy/window.py'],
         [('document attachment on insertion', 'svgpy/dom.py'),
          ('factory methods attach the new node', 'svgpy/window.py')],
         PI + '; owner field at exit of every linking path',
         '''All paths of every operation within loop bound; deeper
         propagation follows by induction over attach on children.''')
    prop('D03', 'Attributes, comments and PIs never have children',
         '''Every operation that would give an attribute, a comment or a
         processing instruction a child, or replace or remove one, is refused
         with a hierarchy error whatever the arguments, and changes nothing.
         Their child node lists are always empty.''',
         ['inputs'],
         'every child operation of every leaf node class x argument kinds',
         '''The tests try single operations with one kind of argument; the
         native base classes silently accept children as soon as one
         override is missing.''',
         ['svgpy/dom.py'],
         [('overrides of the native child operations', 'svgpy/dom.py')],
         PI + '; all-paths-raise and class-hierarchy completeness rules',
         'All paths of all operations; trusts the node class list.')
    prop('D08', 'DOM errors carry their standard name and legacy code',
         '''Every DOM error the library can raise reports the standard error
         name of its kind and the legacy code Web IDL assigns to that name
         (0 when there is none), however it was constructed, and the message
         it was given. Unknown construction keywords are refused.''',
         ['inputs'],
         'every error class and every standard name x ways of constructing',
         '''Tests construct a handful of the classes; a wrong row in the
         name-to-code table shows only for that one error.''',
         ['svgpy/exception.py'],
         [('error name table and constructor', 'svgpy/exception.py')],
         'abstract construction of every error class; table comparison '
         'with Web IDL',
         'Exhaustive over classes and names; trusts the Web IDL table as '
         'transcribed in the rule.')
    prop('D04', 'Attribute objects and element attributes agree',
         '''An attribute object attached to an element reads its value from
         the element and writes to it; setting an empty value or None removes
         the attribute. A detached attribute keeps the value last given and
         touches no element; attaching it stores that value on the element,
         detaching it keeps the value it had. An attribute already attached
         cannot be attached elsewhere: a named node map refuses an attribute
         in use by another element (InUseAttributeError), a name mismatch
         (ValueError) and other value types (TypeError) before anything
         changed, hands out the same object while the attribute exists, and
         detaches the object on replacement or deletion.''',
         ['inputs', 'histories'],
         'every public operation of attribute objects and named node maps x '
         'attached/detached states x paths',
         '''Tests follow single attach or set sequences; agreement must hold
         after every operation in every state.''',
         ['svgpy/dom.py'],
         [('Attr value, attach_element, detach_element', 'svgpy/dom.py'),
          ('NamedNodeMap item operations', 'svgpy/dom.py')],
         PI + ' over attached and detached objects',
         'All paths within the loop bound; element storage is trusted lxml.')
    prop('D05', 'Token lists validate tokens before changing the attribute',
         '''Adding, removing, replacing, inserting or toggling an empty token
         or one containing ASCII white space is refused with an error before
         the attribute is written, also when only a later token of the call
         is bad. A token already present is not added a second time, an
         empty token list is never written as an empty attribute, toggle
         follows its force argument, and every query reflects the attribute's
         current value. Caller-owned lists are left alone.''',
         ['inputs', 'histories'],
         'every mutating and reading operation of token lists x token class '
         'x position of the bad token x paths',
         '''Tests use one bad token alone; order of validation against
         writing is invisible to them.''',
         ['svgpy/dom.py'],
         [('DOMTokenList operations', 'svgpy/dom.py')],
         PI + '; validate-before-write rule',
         'Token classes are exhaustive over the five white space characters.')
    EFF = 'interprocedural effect and alias analysis (summaries to fixpoint)'
    prop('E01', 'Calls leave the arguments a caller passes unchanged',
         '''No public function, method or constructor changes the containers
         or objects passed to it as arguments, or objects these hold:
         namespace maps, attribute dictionaries, lists, URL, matrix, length
         or typed CSS value operands are as before the call. Exceptions are
         operations whose purpose is to link the node they are given into a
         tree or attribute map, the internal shorthand parsing helpers in
         css.shorthands, CSSNumericType.apply_percent_hint and the window
         passed to CSS.register_property.''',
         ['inputs'],
         'every argument of every public function and method of the package',
         '''Tests rarely look at an argument again after the call; the
         corruption shows in the caller's next use of it.''',
         ['svgpy'],
         [('every public function and method', 'svgpy')],
         EFF,
         '''Whole package, flow-sensitive within functions; trusts that
         third-party functions leave arguments alone.''')
    prop('E02', 'Package-wide tables, defaults and settings never change',
         '''No function of the package changes, rebinds or hands out for
         changing a module-level table, a class-level table or a mutable
         default argument, or changes interpreter-wide settings (locale,
         warnings, logging, numpy error state, environment, working
         directory, recursion limit), so results never depend on earlier
         calls made elsewhere. The documented SVGElementClassLookup.update
         and the parser registering itself with lxml are the exceptions.''',
         ['histories'],
         'every module and class table x every function of the package',
         '''A table corrupted by one call shows in unrelated later calls;
         tests run each call once from a fresh state.''',
         ['svgpy'],
         [('module-level maps', 'svgpy'), ('class-level maps', 'svgpy')],
         EFF + '; reference query over interpreter-wide setters',
         'Whole package; aliasing through third-party objects is not '
         'tracked.')
    prop('E03', 'Queries leave the object they are asked about unchanged',
         '''Reading a property, calling a query (get_*, has_*, is*, find*,
         to*, iter*, compute_*, compare_*, query_*, matches, closest,
         lookup_*, clone*, items/keys/values), calling a method of a read-only
         interface, the form of an operation that has a *_self twin, or
         numeric CSS arithmetic, or applying a non-mutating
         operator (comparison, arithmetic, indexing, containment, length,
         iteration, repr, copy) never changes the object it is applied to,
         anything that object holds, or a package-wide table.''',
         ['histories'],
         'every property getter, query and operator method of the package',
         '''Tests ask once; that asking again, or asking something else
         first, gives the same answer is never exercised.''',
         ['svgpy'],
         [('property getters and query methods', 'svgpy')],
         EFF + ' on getters, queries and operators',
         '''Three private caches (attribute nodes, parsed inline style, ICU
         status cell) are exempt by name.''')
    prop('E04', 'Containers received from callers are not changed later',
         '''An object that keeps a container or object passed to its
         constructor or setter does not change it in place afterwards, except
         where it is by design a view of it (document element, owner node,
         declaration block behind shorthands and style maps).''',
         ['histories'],
         'every argument stored unchanged in an attribute x every method of '
         'the class, its bases and subclasses',
         '''The caller's copy changes only at a later call on the other
         object, a two-object history no test follows.''',
         ['svgpy'],
         [('constructors and setters keeping arguments', 'svgpy')],
         EFF + '; kept-alias x in-place-change join',
         'Per class family; changes by unrelated classes are E01.')
    prop('E05', 'No output, code execution, processes or stray network use',
         '''The library never writes to standard output or error, evaluates
         or compiles text as code, unpickles data, starts processes, opens
         sockets or creates, writes or deletes files; neither warnings nor
         log messages that appear without logging being set up are issued.
         The only network access is through utils.load (urlopen), the only
         process is the ICU library lookup at import, and only
         css.mediaquery.dump prints, which is its purpose.''',
         ['inputs'],
         'every external and builtin reference in every function and module '
         'body',
         '''A test does not notice a stray print or an eval that only some
         input reaches.''',
         ['svgpy'],
         [('utils.load', 'svgpy/utils.py'),
          ('ICU library lookup', 'svgpy/icu.py')],
         'whole-package reference query with import resolution',
         'Reflection through getattr on modules is not resolved.')
    prop('U01', 'Location assignments navigate once, to the changed URL',
         '''Assigning a component of a Location (hash, host, hostname, href,
         pathname, port, protocol, search) or calling assign changes that
         component of its URL and then navigates the document of its
         browsing context to that URL exactly once, after the change; without
         a browsing context it navigates nowhere. reload navigates once
         without changing the URL. blob: and data: URLs and URLs with
         neither scheme nor host are refused with ValueError before any
         navigation. Getters report the same component.''',
         ['inputs', 'histories'],
         'every Location setter and method x with and without context x '
         'scheme classes x paths',
         '''Tests assign href only, with documents on disk.''',
         ['svgpy/url.py'],
         [('Location setters and navigation', 'svgpy/url.py')],
         PI + '; event order rule',
         'All paths; URL components opaque (U02-U04).')
    prop('U02', 'A URL component assignment is atomic and changes only it',
         '''Assigning a URL component either is refused with an error and
         leaves every component of the URL as it was, or changes that
         component and nothing independent of it: user name, password, path,
         query, fragment, scheme and host/port are independent of each other
         (host, hostname and port are presented together; origin and href
         follow all). Assigning href replaces every component.''',
         ['inputs', 'histories'],
         'every URL component setter x every other component x paths',
         '''Tests check the component assigned, hardly ever the others and
         never the state after a refusal.''',
         ['svgpy/url.py'],
         [('URL component setters', 'svgpy/url.py')],
         'write/read frame comparison from effect summaries; '
         'effect-before-raise over all paths',
         'Library functions quote/unquote/normpath are taken not to raise.')
    prop('U03', 'URL host and origin follow scheme, host name and port',
         '''URL.host is the host name, followed by ":port" exactly when a
         port is set that is not the scheme's default (ftp 21, gopher 70,
         http and ws 80, https and wss 443). URL.origin is scheme//host for
         these schemes when there is a host, and "null" for file:, other
         schemes and an empty host. Both always reflect the current
         components, in whatever order they were assigned, and reading them
         changes nothing.''',
         ['inputs', 'histories'],
         'schemes x default and other ports x empty/non-empty host, host '
         'name symbolic',
         '''Tests use http URLs with a few ports; the scheme can change
         after the port was set.''',
         ['svgpy/url.py'],
         [('host and origin getters, default port table', 'svgpy/url.py')],
         'abstract interpretation of the getters over the finite '
         'scheme x port domain with symbolic host',
         'Exhaustive over the scheme table; host name symbolic.')
    prop('U04', 'A URL serializes all its components, in order',
         '''href and tostring are the concatenation of scheme, "//" (except
         about:, blob: and data:), user name and password (only with a host,
         never for file:), host with non-default port, path, query and
         fragment; each present component appears exactly once and in this
         order, an absent one leaves no delimiter, and exclude_fragment
         leaves out the fragment only. Location.tostring does the same for
         its URL.''',
         ['inputs'],
         'scheme classes x all subsets of present components x '
         'exclude_fragment, component texts symbolic',
         '''Tests serialize a few URLs; combinations such as a password with
         a port and an empty path are not among them.''',
         ['svgpy/url.py'],
         [('URL.tostring', 'svgpy/url.py')],
         PI + ' with symbolic text concatenation',
         'Component texts symbolic; 7 scheme classes; query text opaque.')
    GM = ['svgpy/geometry/matrix.py']
    prop('G01', 'Read-only geometry operations equal in-place ones on a copy',
         '''Every operation of DOMMatrixReadOnly and DOMRectReadOnly returns a
         new mutable object whose values and 2-D flag are those the in-place
         operation of the same name gives a mutable copy with the same
         arguments, and leaves the receiver and its arguments as they were.
         The in-place operations of matrices return their receiver. A
         matrix product with the * operator is multiply.''',
         ['inputs'],
         'every operation with an in-place counterpart x 2-D and 3-D '
         'receivers x argument shapes, all entries symbolic',
         '''Tests compare both forms for a few constant matrices; a dropped
         argument with a common default goes unnoticed.''',
         ['svgpy/geometry/matrix.py', 'svgpy/geometry/rect.py'],
         [('read-only operations', 'svgpy/geometry/matrix.py'),
          ('read-only rectangle operations', 'svgpy/geometry/rect.py')],
         PI + ' and polynomial normal forms (self-composition)',
         'Entries and amounts symbolic reals; rounding not modelled.')
    prop('G02', 'Matrix components, keywords and sequences agree',
         '''The 22 component attributes, the constructor keywords and
         sequences of 6 and 16 numbers of a matrix address the same entries
         (a=m11, b=m12, c=m21, d=m22, e=m41, f=m42, column by column), as do
         tolist, to_float_array, tojson and the text form. Assigning a
         component changes that component and its alias only. Contradicting
         aliases, 3-D values for a matrix declared 2-D, unknown keywords and
         sequences of any other length are refused.''',
         ['inputs'],
         'every component x constructor form, setter and serialization, '
         'values symbolic',
         '''Tests build a few matrices; a swapped pair of entries shows only
         with values in which the two differ.''',
         GM, [('constructor, components and sequences', GM[0])],
         PI + '; component table of Geometry Interfaces',
         'Values symbolic; alias and flag conflicts on chosen constants.')
    prop('G03', 'A matrix flagged 2-D has no 3-D component',
         '''However a matrix was made and whatever operations and component
         assignments were applied, while its is2d flag is set its ten 3-D
         components are those of the identity. Operations given only 2-D
         amounts keep a 2-D matrix 2-D; a 3-D matrix stays 3-D until it is
         cleared; a product is 2-D exactly when both factors are.''',
         ['inputs', 'histories'],
         'one inductive step: every operation, setter and constructor from '
         'any flagged state, entries symbolic',
         '''Tests look at the flag after single operations on constants; the
         invariant is over all histories.''',
         GM, [('is2d maintenance', GM[0])],
         PI + ' with an inductive invariant over symbolic entries',
         'Exhaustive over operations; trusts that inversion keeps the form.')
    prop('G04', 'Matrix operations multiply by the specified transformation',
         '''Every in-place matrix operation post-multiplies the current
         matrix by the transformation CSS Transforms defines for it:
         translation, scaling about an origin (2-D and 3-D), rotation about
         z, y and x in that order, rotation about an arbitrary axis,
         rotation to a vector, skewing, another matrix. transform_point is
         the product of the matrix and the column vector.''',
         ['inputs'],
         'every operation x argument shapes x paths, entries and amounts '
         'symbolic',
         '''Tests compare with constants, often with an origin of zero or a
         single axis, for which wrong factors coincide.''',
         GM, [('in-place operations', GM[0])],
         PI + '; equality of polynomial normal forms over trigonometric '
         'atoms',
         'Exact real arithmetic; rounding is not modelled.')
    RF = ['svgpy/geometry/rect.py']
    prop('G05', 'Rectangle operations agree with the edges',
         '''Edges, coordinate tuples and JSON of a rectangle follow from its
         position and size, and moving, resizing, adjusting, translating and
         transposing change them as defined. For every relative position of
         two proper rectangles: the union is the least rectangle around both
         (also when they have no width or no height, as the boxes of straight
         lines), the intersection has the inner edges when they overlap and the
         receiver is kept otherwise, and containment of a rectangle or point
         is decided by the edges. Normalizing makes sizes non-negative
         without moving edges. Transformation gives the bounding box of the
         four mapped corners. A rectangle is valid when it has a position
         and positive sizes.''',
         ['inputs'],
         'all weak orderings of the edges of two rectangles on both axes '
         '(exhaustive), values symbolic',
         '''Tests use a handful of relative positions; there are 11x11
         orderings of two proper rectangles, 13x13 with shared edges.''',
         RF, [('rectangle operations', RF[0])],
         PI + '; exhaustive edge orderings with polynomial normal forms',
         'Exhaustive over orderings; rounding is not modelled.')
    TF = ['svgpy/transform.py', 'svgpy/geometry/matrix.py',
          'svgpy/formatter.py']
    prop('T01', 'Transform functions have the matrix, values and text they name',
         '''An SVGTransform, however it was made (constructor, set, set_*
         methods, from_matrix) and whatever it was before, has the type that
         was asked for, the values given with SVG's defaults for omitted ones
         (translate(tx) is translate(tx, 0), scale(s) is scale(s, s),
         rotate(a) is about the origin), the angle of rotations and skews and
         0 otherwise, and the matrix the SVG specification gives for the
         function with those values. An unknown transform has no matrix.
         Unknown type numbers and matrices that are not 2D raise ValueError
         and leave the transform as it was. Its text is the function name
         followed by the values in order, leaving values out only where the
         shorter form means the same; that name parses back to the same
         type.''',
         ['inputs'], 'all values, all previous types (symbolic)',
         '''Tests use a few angles and amounts, mostly on fresh transforms and
         with centres off both axes.''',
         TF, [('transform functions', TF[0])],
         PI + '; polynomial normal form comparison against SVG matrices',
         'Exhaustive per function; rounding of the text is not modelled.')
    prop('T02', 'A transform list holds transforms and applies them in order',
         '''The matrix of a transform list is the product of the matrices of
         its transforms, the first function leftmost, and so are the matrices
         of `transform` and of the transform consolidate() leaves as the only
         item; an empty list has none. List operations, their SVG DOM aliases
         (append_item, insert_item_before, get_item, replace_item,
         remove_item, initialize, clear, extend, +, +=) change the sequence of
         items as their names say and return the item concerned; + leaves
         both operands alone; indices outside the list raise IndexError.
         append, insert, replace and item or slice assignment of anything
         that is not a transform raise TypeError and leave the list as it
         was; nothing but transforms ever gets into a list.''',
         ['inputs', 'histories'],
         'all amounts; all ordered pairs of functions and sample triples; all '
         'positions in lists of 0 to 3 items',
         '''Tests check a few lists; the property is about all orders, positions
         and amounts.''',
         TF[:2], [('transform list', TF[0])],
         PI + '; polynomial normal form comparison of products',
         'Bounded in list length (3); amounts are symbolic.')
    prop('P01', 'Path segments mean what their SVG command says',
         '''A path segment built from a command letter and values, or by the
         set_*_abs / set_*_rel setter of the command, holds that letter and
         those values in the order of the SVG grammar, knows whether it is
         absolute, and ends where the command ends. Made absolute, relative
         coordinates are rotated by the bearing and added to the current
         point. Converted to the base set, H and V become lines, smooth
         curves start with the given control point, and quadratic curves
         become the cubic curves that trace them. Mapped through a 2-D matrix
         (arcs excepted), all points are mapped and the segment keeps its
         kind. The original segment is left alone. The text is the letter
         followed by the values in order, separated; parsing reads numbers as
         SVG writes them and takes as many values per letter as the grammar
         says, leaving out an incomplete set.''',
         ['inputs'],
         'all coordinates, bearings and matrices (symbolic) for all 22 '
         'letters',
         '''Tests convert a few sample segments; each letter has its own code
         for every conversion.''',
         PA, [('SVGPathSegment', PA[0]), ('PathSegment', PA[0])],
         PI + '; polynomial normal form comparison with SVG definitions',
         'Exhaustive per letter; arc centre and shape are not covered.')
    prop('P02', 'Reading a path follows the current point and curve state',
         '''Converting a path to the base set, mapping it through a 2-D matrix
         and adding up its length read the commands in order as SVG does: the
         current point moves to the end of each command (H and V change one
         coordinate, closing returns to the start of the subpath, an arc that
         goes nowhere is left out), S continues a preceding C or S and T a
         preceding Q or T by reflecting the last control point and otherwise
         starts at the current point, relative commands are turned by the
         bearing. Conversion gives the same segments in the base set, mapping
         gives a path that reads as the mapped one, and the length is the sum
         of the segments' lengths, closing lines included. Consecutive movetos
         count as a moveto and lines. The text written for a path reads as
         the same commands.''',
         ['inputs', 'histories'],
         'all coordinates (symbolic) x all sequences of up to three commands '
         'and selected sequences of four to five',
         '''Which state a command has to restore depends on the commands before
         it; tests read some sample paths.''',
         PA, [('PathParser.normalize, transform, get_total_length', PA[0])],
         PI + '; polynomial normal form comparison with a reference reading',
         '''Bounded in sequence length; the shape and length of arcs are not
         decided (their centre computation is left open).''')
    SH = ['svgpy/element.py', 'svgpy/base.py']
    prop('P03', 'Basic shapes are the paths SVG defines for them',
         '''rect, circle, ellipse, line, polyline and polygon give the path
         data SVG defines as their equivalent: their geometry is read from
         the attributes of their own names with SVG's defaults, horizontal
         ones relative to the viewport width, vertical ones to its height. An
         automatic radius is the used value of the other one, radii of
         rectangles are at most half of their own side. A rectangle or
         ellipse without size is not drawn, one without radii has square
         corners. Polylines and polygons visit every point in order, a
         polygon is closed. Path data is normalized when the settings ask
         for it.''',
         ['inputs'],
         'every combination of missing, auto and given attributes x all '
         'signs and orders of sizes and radii (exhaustive), values symbolic',
         '''Tests render some shapes; the corner cases are combinations of
         missing, automatic and oversized values.''',
         SH, [('get_computed_geometry and get_path_data of the shapes',
               SH[0])],
         PI + '; exhaustive sign and order cases with polynomial normal forms',
         '''Exhaustive; the used value of a length is left open, points
         lists up to four points.''')
    prop('P04', 'Curves and paths stay inside their boxes, which are tight',
         '''The points of a cubic curve are those of its Bernstein form and
         its length is the integral of its speed. Its extremes are taken at
         every parameter in [0, 1] where the derivative of a coordinate
         vanishes and nowhere outside, whichever coefficients are zero, and
         its box is the least one around its ends and extremes. The box of a
         path in the base set is the least one around all lines (closing
         lines and lines between consecutive movetos included) and curves.''',
         ['inputs'],
         'all curves (coefficients symbolic, every sign case of the '
         'derivative) and all paths of selected command sequences with '
         'corners in any order',
         '''Degenerate curves and unusual corner orders are not sampled by
         tests; a wrong case yields a box that is too small.''',
         PA, [('CubicBezierCurve', PA[0]), ('PathParser.get_bbox', PA[0])],
         PI + '; polynomial normal form comparison over all sign cases',
         '''Exhaustive over sign cases for curves; sequences of up to six
         commands, orders sampled for more than three corners.''')
    LF = ['svgpy/core.py']
    prop('L01', 'Lengths in any unit are worth what the CSS tables say',
         '''Reading a length in another unit (value, tostring), resetting its
         unit (convert) and converting back give the number the CSS tables of
         units define: absolute units relative to 96 pixels per inch, em and %
         the font size of the parent, rem that of the root, ex, cap, ch and ic
         the metrics of the element's font (the font size when the font has
         none), vw, vh, vmin and vmax hundredths of the sides, lesser and
         greater side of the view box or else the viewport; percentages with a
         direction are of width, height or the normalized diagonal, and a
         direction passed to the call prevails. Resolutions convert among
         themselves only, mixing raises ValueError and changes nothing. Every
         unit is exactly one of absolute, relative and resolution. Texts are
         read with any case of the unit, unknown units are refused.''',
         ['inputs'],
         'every pair of units x percentage direction x with and without '
         'element, parent, view box and font metrics (exhaustive), numbers '
         'and sizes symbolic',
         '''There are over 400 pairs of units times the settings that matter;
         a wrong factor shows only for its pair.''',
         LF, [('SVGLength.value, convert, parse', LF[0])],
         PI + '; polynomial normal form comparison with the CSS unit tables',
         '''Exhaustive, except conversion to ex, cap, ch and ic with an element
         (the font is loaded again at a size that depends on the number).''')
    prop('L02', 'Length arithmetic and comparison agree across units',
         '''The sum and difference of two lengths, the product and quotient of
         a length and a number, negation and absolute value have the algebraic
         value in every unit they are read in, with the unit of the left
         operand (of the right one when the left has none) and the element and
         percentage direction of the left one. Operators leave their operands
         alone, in-place operators change and return the receiver. Of two
         lengths exactly one is less, equal (within the tolerance) or greater,
         <= and >= follow from that, in whatever units they are. Other
         operands are not accepted.''',
         ['inputs'],
         'pairs of units of every kind x operators x order and tolerance '
         'outcomes, numbers symbolic',
         '''Mixed units, unitless operands and values within the tolerance are
         combinations tests sample thinly.''',
         LF, [('SVGLength operators', LF[0])],
         PI + '; polynomial normal form comparison, exhaustive order cases',
         'Products and quotients of two lengths are not covered.')
    VB = ['svgpy/base.py']
    prop('V01', 'The viewport transformation is the equivalent transform of SVG',
         '''get_viewport_transformation_matrix maps the view box to the viewport
         as SVG defines: the scale factors are the ratios of width and height,
         made equal to the smaller (meet) or larger (slice) one unless align
         is none; the origin of the view box goes to the position of the
         viewport, moved by none, half or all of the remaining space on each
         axis according to align. Without a view box it is a translation to
         the position of the viewport. The units of the lengths do not
         matter.''',
         ['inputs'],
         'every align x meet/slice x order of the scale factors (exhaustive), '
         'positions and sizes symbolic, equal and mixed units',
         '''The 10 alignments times meet and slice times the shape of the view
         box are more cases than a test suite lists; each has its own
         translation.''',
         VB, [('SVGGraphicsElement.get_viewport_transformation_matrix',
               VB[0])],
         PI + '; polynomial normal form comparison with the SVG formula',
         'Exhaustive; sizes are positive.')
    prop('V02', 'preserveAspectRatio and zoomAndPan keywords map to their values',
         '''Reading preserveAspectRatio gives the SVG DOM constants of exactly
         the keywords of SVG, with xMidYMid and meet for what is missing or
         unknown; a pair of constants is written as the keywords that are read
         back as that pair; two values are equal when both constants are.
         zoomAndPan likewise; setting an unknown number changes nothing.''',
         ['inputs'],
         'every keyword and pair of keywords, missing and unknown ones '
         '(exhaustive)',
         'A swapped pair of constants is visible for one keyword only.',
         VB, [('SVGPreserveAspectRatio', VB[0]), ('SVGZoomAndPan', VB[0])],
         PI,
         '''Exhaustive over the keywords. Known finding: the text of xMinYMid
         is XMinYMid, which the test suite requires.''')
    prop('V03', 'Viewport size and view box come from the right ancestor',
         '''get_viewport_size gives position and size of the nearest viewport
         with missing or auto sizes 100%, percentages relative to the matching
         side of the parent viewport, vw, vh, vmin and vmax hundredths of its
         sides, lesser and greater side, inherit its size, and the window at
         the outermost viewport. get_view_box gives the four numbers and the
         preserveAspectRatio of the nearest viewport that has a view box, or
         of the nearest viewport only when not recursive.''',
         ['inputs'],
         'elements in 0 to 3 nested viewports x kinds of each of the four '
         'attributes x wide and high windows, sizes symbolic',
         '''Tests nest two viewports with a few units; attributes that are
         resolved in the wrong order or against the wrong side agree for
         square or single viewports.''',
         VB, [('SVGElement.get_viewport_size, get_view_box', VB[0])],
         PI + '; polynomial normal form comparison with the SVG rules',
         '''Up to three nested viewports; relative sizes of nested viewports
         refer to the viewport, not its view box. Lengths relative to fonts
         are not covered.''')
    prop('V04', 'The current transformation matrix composes every step',
         '''get_ctm is the product, from the nearest viewport in, of viewport
         transformations and transform attributes of all elements in between;
         get_screen_ctm goes on to the outermost svg element and starts with
         its scale and translation. A transform on a viewport element applies
         outside its view box.''',
         ['inputs'],
         'chains of up to five elements x which of them have a transform, '
         'matrices symbolic',
         '''Matrices do not commute: a wrong order shows only for transforms
         that are not translations, in nested viewports.''',
         VB, [('SVGGraphicsElement.get_ctm, get_screen_ctm', VB[0])],
         PI + '; polynomial normal form comparison of matrix products',
         'Chains of up to five elements.')
    prop('V05', 'Groups and use elements place every shape once, transformed',
         '''Path data of a group is that of its graphics children in document
         order, each mapped by its own transform; of a use element that of the
         referenced element with its transform, then moved to x, y;
         transformed path data also applies the transform of the element
         asked. The bounding box of a container is the union of the boxes of
         its children that are displayed and no definitions or symbols, mapped
         by the transforms between.''',
         ['inputs'],
         'trees of groups, shapes, use elements, symbols and definitions x '
         'every choice of transforms; paths, positions and matrices symbolic',
         '''A transform applied twice, in the wrong order or to the wrong
         level shows for particular nestings only.''',
         ['svgpy/base.py', 'svgpy/element.py'],
         [('get_bbox, get_transformed_path_data', VB[0]),
          ('SVGUseElement.get_path_data', 'svgpy/element.py')],
         PI + '; polynomial normal form comparison of matrix products',
         '''17 trees of up to five elements. Scaling of instances of svg and
         symbol elements, viewports of nested svg elements and text are not
         covered.''')

    DOMF = ['svgpy/dom.py', 'svgpy/base.py', 'svgpy/element.py']
    prop('D06', 'Dataset keys and data-* attributes correspond one to one',
         '''Reading, writing, deleting and testing element.dataset[key] use
         exactly the attribute data- followed by the key with every ASCII
         upper-case letter replaced by a dash and its lower-case form; keys
         with a dash before an ASCII lower-case letter are refused with a
         ValueError, names that are no XML names with InvalidCharacterError,
         without changing anything. Iteration lists exactly the data-*
         attributes without ASCII upper-case letters, with each dash before a
         lower-case letter and that letter replaced by its upper-case form, so
         every key listed reads back its attribute. (Writing an empty value is
         not covered.)''',
         ['inputs'],
         'keys and names over one representative per class of character, all '
         'orders to length 2 (3 thorough), core classes to length 4 (5)',
         '''Tests try a handful of ordinary keys; doubled, leading and trailing
         dashes, digits and letters outside ASCII take other paths.''',
         DOMF, [('DOMStringMap', DOMF[0])], PI,
         '''Exhaustive over character classes up to the given length; values
         symbolic and not empty.''')
    prop('R01', 'Reflecting properties read and write their own attribute',
         '''Each property that reflects a content attribute (id, class_name,
         lang, title, media, type, href, rel, hreflang, integrity, as_,
         cross_origin, referrer_policy) returns the text of exactly that
         attribute, or its documented default when it is missing, and setting
         it sets exactly that attribute. class_list, rel_list, sizes and
         dataset are views of class, rel, sizes and the data-* attributes. The
         href of SVG elements is that of href, or of xlink:href when there is
         no href.''',
         ['inputs'],
         'every reflecting property x every class that has it x attributes '
         'present or missing, texts symbolic',
         '''Two dozen properties in every element class; tests read some of
         them once.''',
         DOMF, [('HTMLLinkElement, SVGStyleElement', DOMF[2]),
                ('HTMLElement, SVGURIReference', DOMF[1])], PI,
         'All classes and properties; texts symbolic.')
    prop('R02', 'Every element has the class and categories of its name',
         '''The parser creates for each SVG element the package has an
         interface for, and each HTML element allowed in SVG, in the
         namespace it belongs to, the class of that interface; unknown names
         give the generic HTMLElement in the XHTML namespace and SVGElement
         in others; comments are Comment, processing instructions
         ProcessingInstruction objects. iscontainer, isgraphics,
         isrenderable, isshape, istext and istransformable hold for exactly
         the element names of the SVG 2 category.''',
         ['inputs'],
         'every element name of SVG 2, other names x namespaces x node kinds '
         '(exhaustive)',
         '''Tests instantiate some elements; a wrong entry shows only for the
         element it belongs to.''',
         DOMF, [('SVGElementClassLookup', DOMF[2]),
                ('Element categories', DOMF[0])], PI,
         '''Exhaustive over the names of the specification. textPath as text
         and symbol and clipPath as transformable are left open.''')
    CT = ['svgpy/css/types.py', 'svgpy/css/__init__.py']
    prop('C01', 'CSS units convert and compare by their fixed ratios',
         """A unit value keeps its number and its unit (in lower case) and has
         the type of the base type of its unit; text that is no unit is
         refused with ValueError. Converting to a unit gives the number times
         the quotient of the sizes CSS Values fixes for the two units and is
         refused with ValueError between units without a fixed ratio. The
         comparison operators compare the numbers after conversion to the same
         unit, numbers counting as unit number. The factories of CSS make
         values of the unit they are named after.""",
         ['inputs'],
         'all 36 units in three spellings x all pairs x both comparison '
         'outcomes, numbers symbolic',
         """Tests convert a handful of pairs; there are over a thousand.""",
         CT, [('CSSUnitValue, UnitType, CSSNumericType', CT[0]),
              ('CSS factories', CT[1])], PI,
         """Exhaustive over units; rounding not modelled (ratios to nine
         digits).""")
    prop('C02', 'Types of numeric values follow the CSS type algebra',
         """Adding, multiplying and percent hinting of types give the results
         of CSS Typed OM, keep their operands, and give None for incompatible
         types. The type of a sum, minimum, maximum or clamp is the sum of the
         types of its arguments, of a product the product, of an inverse the
         negated powers (with the same percent hint), of a negation the same;
         incompatible arguments and missing arguments are refused with
         ValueError; operator is that of the class. (A percentage added to a
         number is left open.)""",
         ['inputs'],
         'pairs of types over powers absent/zero/one/... of base types and '
         'percent, with and without hints; all pairs of 14 argument kinds, '
         'chosen triples',
         """Tests add a few types; hints and zero powers matter only in
         combination.""",
         CT[:1], [('CSSNumericType.add_types, multiply_types', CT[0]),
                  ('CSSMath* constructors', CT[0])], PI,
         """Exhaustive over the listed types; powers from -1 to 2.""")
    prop('C03', 'Numeric value operations compute what the tree stands for',
         """create_sum_value of a tree of unit values, sums, products,
         negations, inverses, minima, maxima is the list of products of
         numbers and powers of canonical units the tree stands for, numbers of
         equal unit maps added up; it is None for trees that have none. to and
         to_sum give these numbers in the units asked for and refuse with
         ValueError what does not convert or is left over; add stands for the
         sum of its operands; equals holds exactly for trees of the same
         classes, units, numbers and order. None of them changes an operand.
         (min and max below other operators and to_sum of clamp are not
         covered.)""",
         ['inputs'],
         'over 900 trees of up to three operands and levels over seven units '
         'x targets, numbers symbolic',
         """Tests evaluate some sums; the arithmetic of every operator and
         nesting has its own code.""",
         CT[:1], [('create_sum_value, to, to_sum, add, equals', CT[0])],
         PI + '; polynomial normal form comparison',
         """Trees to depth three; numbers inverted are not zero; rounding not
         modelled.""")
    prop('C04', 'Math functions are read and written by CSS precedence',
         """Parsing calc(), min(), max() and clamp() gives a tree that stands
         for the value the expression has by the precedence of CSS Values:
         products and quotients before sums and differences, from left to
         right, with parentheses and nested functions as operands and full
         expressions as arguments. Sequences that are no expression
         (operands and operators not alternating, missing or too many
         arguments, other tokens and functions) are refused with ValueError.
         Before a change a parsed value is written as the text it was parsed
         from; a tree that was constructed is written as text that has the
         value of the tree when read with that precedence (a minus before an
         operand negating it).""",
         ['inputs'],
         'all operator sequences to length 3 (4 thorough), chosen ones of '
         'length 4; parentheses and functions in all operand and argument '
         'positions; 38 malformed sequences; some 700 (3000) trees',
         """Tests parse flat expressions, one of each kind; precedence and
         nesting interact.""",
         CT[:1], [('CSSNumericValue.parse', CT[0]),
                  ('CSSMath*.tostring', CT[0])],
         PI + '; polynomial normal form comparison',
         """To the given lengths; tokenizing is that of tinycss2, numbers are
         symbolic.""")
    prop('C05', 'Media queries match by the values of the features they name',
         """A media query list matches if and only if one of its queries
         holds. A media type holds for that medium and all; a plain feature
         holds when the value is equal, min- and max- when it is at least and
         at most, and the range notation for its comparisons, with the
         feature on the left, on the right or between two bounds and with or
         without spaces; aspect ratios compare as fractions, discrete
         features only by equality; a feature alone holds when it has a value
         other than none or zero; unknown features and values that are not
         comparable do not hold. and needs all conditions, or any, a mixture
         of both never holds; not negates one condition or type. Case and
         outer space do not matter. MediaQueryList.matches uses the viewport
         of the document (of the window without a root element) and the
         screen and pixel ratio of its window.""",
         ['inputs'],
         'all 22 features x values below, at and above x notations, types and '
         'combinations of three conditions: over 2400 queries',
         """Tests match some queries for one screen; each notation of each
         feature is a different path of the parser.""",
         ['svgpy/css/mediaquery.py', 'svgpy/window.py'],
         [('parse, match', 'svgpy/css/mediaquery.py'),
          ('MediaQueryList.matches', 'svgpy/window.py')],
         PI,
         """Negations of more than one condition, nested parentheses and =
         as a range operator are left open; comparison of lengths is L02.""")
    prop('C06', 'Style sheets and rules apply where their media hold, in order',
         """The rules that apply to a document are those of the user agent
         sheet, then of the xml-stylesheet instructions, then of the link and
         style elements, each in document order, with @media and @import rules
         replaced, at any depth, by the rules in them if their media match and
         left out if not; without a window only rules for all media apply.
         Alternate sheets, links that are no style sheets, references without
         a location or to a fragment and style elements of another type do
         not count. Of the rules whose selectors match, the later declaration
         of a property wins, important ones being kept apart; rules with
         selectors that are invalid are skipped and namespace rules name the
         namespaces of the rules after them. Locations are resolved against
         the document or the style sheet that names them, through any chain
         of imports; a sheet that cannot be fetched is empty.""",
         ['inputs', 'faults'],
         'nestings to depth three; all combinations of link, style and '
         'instruction attributes; rule sequences; import chains with each '
         'fetch failing: 2200 obligations',
         """Tests read two documents with style sheets; the interaction of
         nesting, media and order is unbounded.""",
         ['svgpy/style.py', CT[0].replace('types', '__init__')],
         [('flatten_css_rules, get_css_style*', 'svgpy/style.py'),
          ('CSSParser, CSSImportRule', 'svgpy/css/__init__.py')],
         PI,
         """Selector matching is that of cssselect; nesting to depth three.""")
    prop('C07', 'The strongest declaration of the nearest element is the style',
         """In the style of an element each inherited property has the value
         declared on the nearest of the element and its ancestors that
         declares another value than inherit, and its initial value if none
         does; a property that is not inherited has the value declared on the
         element itself or its initial value, except that display is none
         below an element that is not displayed. Of the declarations of one
         element, important ones are stronger than others, then those of the
         style attribute than those of rules, then those of rules than
         presentation attributes. font, font-variant and marker set all the
         properties they stand for where no longhand of the element does, and
         malformed font values are ignored. The components of font and
         font-variant values are taken apart as in their grammars, and family
         names may contain spaces and, quoted, commas.""",
         ['inputs'],
         'chains of three elements, the 32 combinations of places for every '
         'property, 27 of declared, inherit and absent; all positions of '
         'shorthands and longhands; 640 font and variant values',
         """Tests look at a few elements and properties; the combinations of
         places, ancestors and shorthands are unbounded.""",
         ['svgpy/dom.py', 'svgpy/core.py', 'svgpy/utils.py'],
         [('Element.get_inherited_style', 'svgpy/dom.py'),
          ('CSSUtils.parse_font, parse_font_family, parse_font_variant',
           'svgpy/core.py'),
          ('style_to_dict', 'svgpy/utils.py')],
         PI,
         """Other shorthands are expanded by CSSStyleDeclaration; a semicolon
         in a value of a style attribute and a declaration repeated with and
         without !important in one are left open.""")
    prop('C08', 'Rules, declarations and media lists hold what was parsed or set',
         """Every style, @font-face, @font-feature-values, @import, @media and
         @namespace rule of a style sheet is represented, in order and to any
         depth of nesting, by an object of its kind that knows its parent rule
         and style sheet and has its selector, media, prefix, namespace,
         feature values and declarations; other, malformed and block-less
         rules leave no trace and do not disturb those around them. In a
         declaration block the later of two declarations counts, but an
         important one is not replaced by one that is not; names match
         without regard to case except those of custom properties, malformed
         and empty values change nothing, setting an empty value removes the
         declaration, and a block that is read-only does not change.
         insert_rule and delete_rule put rules at their index and leave the
         others in order; a media list has no duplicates of what is
         appended.""",
         ['inputs', 'histories'],
         'all kinds of rules alone, in pairs and nested to depth three; all '
         'sequences of up to three (of 16) declaration operations in the '
         'thorough tier; sequences of three list operations: 1700 obligations',
         """Tests parse a few style sheets; the combinations of rules, nesting
         and malformed parts are unbounded.""",
         [CT[0].replace('types', '__init__')],
         [('CSSParser.parse_rules, CSS*Rule, CSSStyleDeclaration, MediaList',
           'svgpy/css/__init__.py')],
         PI,
         """Tokens are those of tinycss2; css_text and shorthand properties
         are left open.""")
    prop('D09', 'Nodes and text end up where the operation puts them',
         """append puts nodes and text after, prepend before everything an
         element contains, in the order given; insert_before, insert,
         addprevious, addnext, replace and append_child put the node exactly
         at the place they name, remove takes it out, and the other nodes and
         text keep their order. A node inserted again is moved. The operations
         return the node the DOM says. Documents place comments and processing
         instructions around the document element the same way. First, last,
         next, previous and parent queries agree with the order of the
         children. The text content of text elements is all text of them and
         their text descendants, also text after comments; setting it replaces
         all children. Comments and processing instructions among the children
         change neither bounding boxes nor path data nor the characters of
         text.""",
         ['inputs', 'histories'],
         'nine contents of an element x all sequences of up to three new, '
         'foreign and own nodes and strings; five documents: 5000 obligations',
         """Tests append a node or two to empty elements; the combinations of
         existing text, children and arguments are unbounded.""",
         ['svgpy/dom.py', 'svgpy/window.py', 'svgpy/text.py',
          'svgpy/base.py'],
         [('Element.append, prepend, node_insert_before, Node queries, '
           'text_content', 'svgpy/dom.py'),
          ('Document.append, prepend, replace', 'svgpy/window.py'),
          ('SVGGraphicsElement.get_bbox', 'svgpy/base.py'),
          ('SVGTextContentElement._get_descendant_chars', 'svgpy/text.py')],
         PI,
         """lxml's own operations are taken as documented; the placement of
         text that follows a node which is moved or removed is left open.""")
    prop('C09', 'Font size, weight and line height compute by the CSS rules',
         """The computed font-weight and font-size of an element follow the
         font-weight and font-size attributes of it and its ancestors from the
         root down: without one, or with inherit, the inherited value stays;
         normal is 400 and bold 700; bolder and lighter step from the
         inherited weight as the table of CSS Fonts says; keywords are the
         sizes of the table for a medium of 16 pixels, larger and smaller
         scale the inherited size by 1.2, em and percentages multiply the size
         of the parent, other lengths are their pixels; a size is at least 10
         pixels. The computed line height is 1.2 times the font size for
         normal, the multiple for a number or percentage, and the pixels of a
         length; font-size-adjust is none or its number.""",
         ['inputs'],
         'all chains of one and two elements, chains of three and four with '
         'the values that interact: 1900 computed values',
         """Tests compute a few values; how relative values combine along the
         ancestors is unbounded.""",
         ['svgpy/core.py'],
         [('CSSUtils.compute_font_size, compute_font_weight, '
           'compute_line_height, compute_font_size_adjust', 'svgpy/core.py')],
         PI,
         """Only attributes count for relative weights and sizes in the
         library; declarations of style sheets that are relative are left
         open, and so is em in line-height.""")
