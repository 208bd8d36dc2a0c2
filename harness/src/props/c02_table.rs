//! Programs with a mistake: `§` marks positions, and the diagnostics are given
//! with the number of their mark, in order. `\u{1}` stands for the directory of the file,
//! `\u{2}` for a fresh number. The flag tells whether the
//! expression has a value all the same.

pub const TABLE: &[(&str, bool, &[(usize, &str)])] = &[
    ("@let(t_=`é x`) <§$t_>é</>", false, &[(0, "Name error: invalid tag name 'é x'")]),
    ("<b **§[1]>x</b>", false, &[(0, "Type error: expected str? dict, was str list")]),
    ("@let(d_=@dict::new(x=[1]).) <b **§$d_>é</b>", false, &[(0, "Type error: expected str, was int list")]),
    ("@let(d_=@dict::new(x=1).) <b x=1 **§$d_>é</b>", false, &[(0, "Runtime error: received multiple values for attribute 'x'")]),
    ("<b xY=1 §Xy=2>é</b>", false, &[(0, "Runtime error: received multiple values for attribute 'Xy'")]),
    ("@let(d_=@dict::new(x=1).) <b **$d_ y **§$d_>é</b>", false, &[(0, "Runtime error: received multiple values for attribute 'x'")]),
    ("@let(d_=@dict::new(x=1, y=2).) <b y=1 **§$d_/>", false, &[(0, "Runtime error: received multiple values for attribute 'y'")]),
    ("<b x=§{<i>a</i>}>é</b>", false, &[(0, "Type error: expected str, was inline")]),
    ("<b x=§[1]>é</b>", false, &[(0, "Type error: expected str, was int list")]),
    ("<b x?=§<i>a</i>>é</b>", false, &[(0, "Type error: expected str, was inline")]),
    ("<b **§1>é</b>", false, &[(0, "Type error: expected str? dict, was int")]),
    ("<b **§.>é</b>", false, &[(0, "Type error: expected str? dict, was none")]),
    ("<span>§<p>a</p></span>", true, &[(0, "Type error: 'p' tag not allowed within parent tag 'span'")]),
    ("<span>é §<div>é</div></span>", true, &[(0, "Type error: 'div' tag not allowed within parent tag 'span'")]),
    ("@match <h1>a§\n\nb</h1> {_ -> .}", true, &[(0, "Type error: paragraph break not allowed here")]),
    ("@match <p>§{<div>a</div>}</p> {_ -> .}", true, &[(0, "Type error: 'div' tag not allowed within parent tag 'p'")]),
    ("@let(b_=<p>é</p>) <i>§$b_</i>", true, &[(0, "Type error: 'p' tag not allowed within parent tag 'i'")]),
    ("@let(t_=`br`) <$t_>§é</>", true, &[(0, "Type error: required empty content, but was non-empty")]),
    ("@let(t_=`br`) <$t_> §<b>é</b> </>", true, &[(0, "Type error: required empty content, but was non-empty")]),
    ("<img x=§[]>", false, &[(0, "Type error: expected str, was none list")]),
    ("@let(two_=@fn($_x: int, $x: int) . -> $x) §@two_(1, 2).", false, &[(0, "Type error: too many positional arguments (expected 1, was 2)")]),
    ("@int_(*§1).", false, &[(0, "Type error: expected any list, was int")]),
    ("§@int_(*[1, 2]).", false, &[(0, "Type error: too many positional arguments (expected 1, was 2)")]),
    ("@let(imp2_=@fn($x: int) . -> $x) @imp2_(x=§`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@named_(x=§`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@named_(x=1, §y=2).", false, &[(0, "Name error: no such parameter 'y'")]),
    ("@named_(x=1)§{é}", false, &[(0, "Type error: expected none, was str")]),
    ("§@regex::compile `(a)(?P<b>c)`", false, &[(0, "Runtime error: regex cannot have both named and unnamed capture groups")]),
    ("§@regex::compile `(?P<b.c>c)`", false, &[(0, "Runtime error: regex group name 'b.c' is not a valid identifier")]),
    ("§@int::add(9223372036854775807, 1).", false, &[(0, "Runtime error: integer overflow")]),
    ("@int::add(1, §`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("§@int::negate -9223372036854775808", false, &[(0, "Runtime error: integer overflow")]),
    ("§@int::parse `99999999999999999999`", false, &[(0, "Runtime error: failed to parse int (number too large to fit in target type)")]),
    ("§@int::parse \"\"", false, &[(0, "Runtime error: failed to parse int (cannot parse integer from empty string)")]),
    ("§@html::parse `<b>`", false, &[(0, "Runtime error: failed to parse HTML (Unexpected token)")]),
    ("§@list::sorted[1, `a`]", false, &[(0, "Type error: sort key must be homogeneous, not a mix of str and int")]),
    ("§@list::sorted[{<b>a</b>}]", false, &[(0, "Type error: sort key must be str or int, was inline")]),
    ("§@list::sorted[[1]]", false, &[(0, "Type error: sort key must be str or int, was int list")]),
    ("§@list::sorted(key=$idc_)[1, `a`]", false, &[(0, "Type error: sort key must be homogeneous, not a mix of str and int")]),
    ("§@list::get(-9)[1]", false, &[(0, "Runtime error: index out of bounds (index -9, length 1)")]),
    ("@list::get(§`é`)[1]", false, &[(0, "Type error: expected int, was str")]),
    ("@list::get(0) §1", false, &[(0, "Type error: expected any list, was int")]),
    ("§@list::get[1]", false, &[(0, "Type error: not enough positional arguments (expected 1, was 0)")]),
    ("@list::slice(1) §1", false, &[(0, "Type error: expected any list, was int")]),
    ("@list::filter(§1)[1]", false, &[(0, "Type error: expected function, was int")]),
    ("§@list::map($int_)[1]", false, &[(0, "Type error: expected none, was int")]),
    ("§@list::map($named_)[1]", false, &[(0, "Type error: expected none, was int")]),
    ("§@list::enumerate(from=9223372036854775807)[1, 2]", false, &[(0, "Runtime error: integer overflow")]),
    ("@list::enumerate(from=§True)[1]", false, &[(0, "Type error: expected int, was bool")]),
    ("@raise §[1]", false, &[(0, "Type error: expected str, was int list")]),
    ("@raise §<b>x</b>", false, &[(0, "Type error: expected str, was inline")]),
    ("§@raise \"\"", false, &[(0, "Runtime error: ")]),
    ("@match §$nope_ {_ -> .}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match 1 {=§$nope_ -> ., _ -> .}", true, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match 1 {_ -> §$nope_}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match [1, §$nope_] {_ -> .}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match [*§$nope_] {_ -> .}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match [*§1] {_ -> .}", false, &[(0, "Type error: expected any list, was int")]),
    ("@match [1, *§`é`] {_ -> .}", false, &[(0, "Type error: expected any list, was str")]),
    ("@match \"a §$nope_ b\" {_ -> .}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match \"a §$int_ b\" {_ -> .}", false, &[(0, "Type error: expected str, was function")]),
    ("@match \"a {§$nope_} b\" {_ -> .}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@match @let(l_=[1]) \"a §$l_ b\" {_ -> .}", false, &[(0, "Type error: expected str, was int list")]),
    ("@implicit(a_=§$nope_) {é}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("§$list::nope", false, &[(0, "Name error: value of type 'function dict' has no such attribute 'nope'")]),
    ("@let(l_=[1]) §$l_::nope", false, &[(0, "Name error: value of type 'int list' has no such attribute 'nope'")]),
    ("@let(l_=[1]) §@l_::nope.", false, &[(0, "Name error: value of type 'int list' has no such attribute 'nope'")]),
    ("@let(d_=@dict::new(x=1).) §$d_::nope", false, &[(0, "Name error: value of type 'int dict' has no such attribute 'nope'")]),
    ("@let(d_=@dict::new(x=1).) §@d_::x.", false, &[(0, "Type error: expected function, was int")]),
    ("@let(d_=@dict::new(x=1).) §$d_::x::nope", false, &[(0, "Name error: value of type 'int' has no such attribute 'nope'")]),
    ("@let(l_=1) §@l_.", false, &[(0, "Type error: expected function, was int")]),
    ("@let(l_=1) §@l_(1) 2", false, &[(0, "Type error: expected function, was int")]),
    ("@let(l_=`é`) §$l_::nope", false, &[(0, "Name error: value of type 'str' has no such attribute 'nope'")]),
    ("@let(l_=<b>x</b>) §$l_::nope", false, &[(0, "Name error: value of type 'inline' has no such attribute 'nope'")]),
    ("@let(l_=.) §$l_::nope", false, &[(0, "Name error: value of type 'none' has no such attribute 'nope'")]),
    ("@let(l_=True) §$l_::nope", false, &[(0, "Name error: value of type 'bool' has no such attribute 'nope'")]),
    ("@let(l_=1) §$l_::nope", false, &[(0, "Name error: value of type 'int' has no such attribute 'nope'")]),
    ("@let(l_=@regex::compile `a`) §$l_::nope", false, &[(0, "Name error: value of type 'regex' has no such attribute 'nope'")]),
    ("@code §[1]", false, &[(0, "Type error: expected str, was int list")]),
    ("@code §<b>é</b>", false, &[(0, "Type error: expected str, was inline")]),
    ("@code(code_block=§1) `a`", false, &[(0, "Type error: expected bool, was int")]),
    ("@code(§q=1) `a`", false, &[(0, "Name error: no such parameter 'q'")]),
    ("§@code(1) `a`", false, &[(0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("@bool::and(§1, True).", false, &[(0, "Type error: expected bool, was int")]),
    ("@bool::and(True, §`é`).", false, &[(0, "Type error: expected bool, was str")]),
    ("§@bool::and(True).", false, &[(0, "Type error: not enough positional arguments (expected 2, was 1)")]),
    ("§@bool::and(True, True, True).", false, &[(0, "Type error: too many positional arguments (expected 2, was 3)")]),
    ("@bool::negate §1", false, &[(0, "Type error: expected bool, was int")]),
    ("@function::bind(§1, 2).", false, &[(0, "Type error: expected function, was int")]),
    ("§@function::bind($int_, 1, 2).", false, &[(0, "Type error: too many positional arguments (expected 1, was 2)")]),
    ("§@function::bind($int_, q=1).", false, &[(0, "Name error: no such parameter 'q'")]),
    ("§@function::bind($int_, `é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f=@function::bind($idc_) 1) @f §2", false, &[(0, "Type error: this function's contents have already been bound (expected none)")]),
    ("@let(f=@function::bind($int_, 1).) §@f(2).", false, &[(0, "Type error: too many positional arguments (expected 1, was 2)")]),
    ("@let(f=@function::bind($named_, x=1).) @f(§x=2).", false, &[(0, "Runtime error: received multiple named arguments for parameter 'x'")]),
    ("@function::name §1", false, &[(0, "Type error: expected function, was int")]),
    ("@dict::get(`x`) §[1]", false, &[(0, "Type error: expected any dict, was int list")]),
    ("§@dict::get(`nope`) @dict::new(x=1).", false, &[(0, "Name error: value of type 'any dict' has no such attribute 'nope'")]),
    ("§@dict::new(1).", false, &[(0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("@dict::new(**§1).", false, &[(0, "Type error: expected any dict, was int")]),
    ("@dict::new(x=1)§{é}", false, &[(0, "Type error: expected none, was str")]),
    ("@dict::items §1", false, &[(0, "Type error: expected any dict, was int")]),
    ("@regex::find(§`é`, 1).", false, &[(0, "Type error: expected regex, was str")]),
    ("@str::from §[1]", false, &[(0, "Type error: expected str, was int list")]),
    ("@str::starts_with(`é`, §[1]).", false, &[(0, "Type error: expected str, was int list")]),
    ("@str::split(`,`) §[1]", false, &[(0, "Type error: expected str, was int list")]),
    ("@str::len §[]", false, &[(0, "Type error: expected str, was none list")]),
    ("@list::len §1", false, &[(0, "Type error: expected any list, was int")]),
    ("@list::flat §1", false, &[(0, "Type error: expected any list, was int")]),
    ("@list::reversed §{é}", false, &[(0, "Type error: expected any list, was str")]),
    ("@let(f=$list::len) @f §1", false, &[(0, "Type error: expected any list, was int")]),
    ("@let(l_=[1]) §@l_::get(5).", false, &[(0, "Runtime error: index out of bounds (index 5, length 1)")]),
    ("@let(l_=[1]) @l_::get(§`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@let(l_=[1]) §@l_::get.", false, &[(0, "Type error: not enough positional arguments (expected 1, was 0)")]),
    ("@let(l_=[1]) §@l_::len(1).", false, &[(0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("@let(l_=[1]) @l_::len §2", false, &[(0, "Type error: this function's contents have already been bound (expected none)")]),
    ("@let(s_=`é`) §@s_::len(1).", false, &[(0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("@let(h_=<b>x</b>) §@h_::tag_name.", false, &[(0, "Type error: expected function, was str")]),
    ("§@idc_(1){é}", false, &[(0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("@idc_(§q=1){é}", false, &[(0, "Name error: no such parameter 'q'")]),
    ("§@id_.", false, &[(0, "Type error: not enough positional arguments (expected 1, was 0)")]),
    ("@id_(1)§{é}", false, &[(0, "Type error: expected none, was str")]),
    ("§@id_(1, 2).", false, &[(0, "Type error: too many positional arguments (expected 1, was 2)")]),
    ("@let(f_=@fn $x: int -> $x) @f_ §`é`", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f_=@fn $x: inline -> $x) @f_ §<p>é</p>", false, &[(0, "Type error: expected inline, was block")]),
    ("@let(f_=@fn $x: str -> $x) @f_ §<b>é</b>", false, &[(0, "Type error: expected str, was inline")]),
    ("@let(f_=@fn $x: bool? -> $x) @f_ §1", false, &[(0, "Type error: expected bool, was int")]),
    ("@let(f_=@fn $x: int dict -> $x) @f_ §@dict::new(a=`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f_=@fn $x: function -> $x) @f_ §1", false, &[(0, "Type error: expected function, was int")]),
    ("@let(f_=@fn(*$_x: int list) . -> 1) @f_(1, §`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f_=@fn(**$x: int dict) . -> 1) @f_(x=1, y=§`é`).", false, &[(0, "Type error: expected int, was str")]),
    ("@list::all(§1) [1]", false, &[(0, "Type error: expected function, was int")]),
    ("@list::find(§`é`) [1]", false, &[(0, "Type error: expected function, was str")]),
    ("@let(t_=\"\") <§$t_>é</>", false, &[(0, "Name error: invalid tag name ''")]),
    ("<§$idc_>é</>", false, &[(0, "Type error: expected str, was function")]),
    ("@let(d_=@dict::new(x=1).) @named_(x=1, §**$d_).", false, &[(0, "Runtime error: received multiple named arguments for parameter 'x'")]),
    ("@let(d_=@dict::new(q=1).) @named_(§**$d_).", false, &[(0, "Name error: no such parameter 'q'")]),
    ("@let(d_=@dict::new(x=1).) @named_(**$d_, §**$d_).", false, &[(0, "Runtime error: received multiple named arguments for parameter 'x'")]),
    ("@let(d_=@dict::new(x=`é`).) @named_(§**$d_).", false, &[(0, "Type error: expected int, was str")]),
    ("@int_(§*[`é`]).", false, &[(0, "Type error: expected int, was str")]),
    ("§@str::unique_id(max_length=0) `é`", false, &[(0, "Runtime error: parameter 'max_length' must be positive (was 0)")]),
    ("§@str::unique_id(max_length=-5) `é`", false, &[(0, "Runtime error: parameter 'max_length' must be positive (was -5)")]),
    ("@int::add(§*[1, `é`]).", false, &[(0, "Type error: expected int, was str")]),
    ("@list::join(`é`)[§$int_]", false, &[(0, "Type error: expected html, was function")]),
    ("@list::join(`é`)[1, [§$int_]]", false, &[(0, "Type error: expected html, was function")]),
    ("@match [1] {[=§$nope_] -> ., _ -> .}", true, &[(0, "Name error: no such variable 'nope_'")]),
    ("@let(a_=§$nope_) {é}", false, &[(0, "Name error: no such variable 'nope_'")]),
    ("@let(a_=@fn($_a: int=§`é`) . -> .) {é}", true, &[(0, "Type error: expected int, was str")]),
    ("@let(a_=@fn($_a=§$nope_) . -> .) {é}", true, &[(0, "Name error: no such variable 'nope_'")]),
    ("@code§.", false, &[(0, "Type error: expected str, was none")]),
    ("§@code(code_block=True, first_line_no=9223372036854775807) ```\na\nb\n```", false, &[(0, "Runtime error: integer overflow")]),
    ("§@function::bind($int_) `é`", false, &[(0, "Type error: expected none, was str")]),
    ("@dict::get(1)§[]", false, &[(0, "Type error: expected any dict, was none list")]),
    ("@dict::new(x=1, §**@dict::new(x=2).).", false, &[(0, "Runtime error: received multiple named arguments for parameter 'x'")]),
    ("@str::split(§[1]) `é`", false, &[(0, "Type error: expected str, was int list")]),
    ("@list::html_nodes [1, §$int_]", false, &[(0, "Type error: expected html, was function")]),
    ("§@idc_(1) {é}", false, &[(0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("@let(f_=@fn $x: int list -> $x) @f_ [1, §`é`]", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f_=@fn $x: block -> $x) @f_ [1, §$int_]", false, &[(0, "Type error: expected html, was function")]),
    ("@let(f_=@fn $x: none -> $x) @f_ §`é`", false, &[(0, "Type error: expected none, was str")]),
    ("@let(f_=@fn(**$x: int dict) . -> 1) @f_(x=1, §**@dict::new(z=`é`).).", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f_=@fn $x: int list -> $x) @f_ §@list::flat[1, `é`]", false, &[(0, "Type error: expected int, was str")]),
    ("@let(f_=@fn $x: str list list -> $x) @f_ [[`é`], [1, §[2]]]", false, &[(0, "Type error: expected str, was int list")]),
    ("§@file::read `no/é`", false, &[(0, "Runtime error: failed to read file \"no/é\" (No such file or directory (os error 2))")]),
    ("§@file::write(`x.html`) <p>é</p>", false, &[(0, "Runtime error: no output directory for '@file::write'; use '--out'")]),
    ("@file::write(§[]) <p>é</p>", false, &[(0, "Type error: expected str, was none list")]),
    ("§@net::fetch_raw `http://127.0.0.1:1/`", false, &[(0, "Runtime error: network access is not enabled")]),
    ("§@net::fetch_html `http://127.0.0.1:1/`", false, &[(0, "Runtime error: network access is not enabled")]),
    ("@match [§x=2] {_ -> .}", false, &[(0, "Syntax error: named argument not allowed here")]),
    ("@named_(§**x=1).", false, &[(0, "Syntax error: named argument cannot be spread")]),
    ("@named_(§*x=1).", false, &[(0, "Syntax error: named argument cannot be spread")]),
    ("@let(§1) {é}", false, &[(0, "Syntax error: positional argument not allowed in this declaration")]),
    ("@let(§*[1]) {é}", false, &[(0, "Syntax error: positional spread not allowed here")]),
    ("@let(§**$x) {é}", false, &[(0, "Syntax error: named spread not allowed here")]),
    ("@let(x=1)§`é`", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1) §`é`", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1) §1", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1) §.", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1)§.", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1) §é", false, &[(0, "Syntax error: expected expression")]),
    ("@implicit(§1) {é}", false, &[(0, "Syntax error: positional argument not allowed in this declaration")]),
    ("{@let(y=1) §@export(x=1).}", false, &[(0, "Syntax error: '@export' declaration not allowed here")]),
    ("{§@fn . -> .}", false, &[(0, "Syntax error: anonymous function not allowed here")]),
    ("{@fn a\u{2} §-> 1}", false, &[(0, "Syntax error: expected variable name, was '->'")]),
    ("{@fn a\u{2}($x, §$x) . -> 1}", false, &[(0, "Syntax error: duplicate parameter name 'x'")]),
    ("{@fn a\u{2}($x, §$_y) . -> 1}", false, &[(0, "Syntax error: positional parameter cannot occur after named parameter")]),
    ("{@fn a\u{2}($_x?: int, §$_y) . -> 1}", false, &[(0, "Syntax error: required parameter cannot occur after optional parameter")]),
    ("{@fn a\u{2}($_x?: int, §$_y: int) . -> 1}", false, &[(0, "Syntax error: required parameter cannot occur after optional parameter")]),
    ("{@fn a\u{2}($_x=1, §$_y) . -> 1}", false, &[(0, "Syntax error: required parameter cannot occur after optional parameter")]),
    ("{@fn a\u{2}(§$x: @implicit int = 1) . -> 1}", false, &[(0, "Syntax error: implicit parameter cannot have default value")]),
    ("{@fn a\u{2}(§$_x: @implicit int) . -> 1}", false, &[(0, "Syntax error: positional parameter cannot be implicit")]),
    ("{@fn a\u{2}(§**$x: @implicit int dict) . -> 1}", false, &[(0, "Syntax error: spread parameter cannot be implicit")]),
    ("{@fn a\u{2}(*$_x, §*$_y) . -> 1}", false, &[(0, "Syntax error: cannot have multiple spread parameters")]),
    ("{@fn a\u{2}(**$x, §**$y) . -> 1}", false, &[(0, "Syntax error: cannot have multiple spread parameters")]),
    ("{@fn a\u{2}(**$x, §$y) . -> 1}", false, &[(0, "Syntax error: parameter cannot occur after spread")]),
    ("{@fn a\u{2}(*$_x, §$_y) . -> 1}", false, &[(0, "Syntax error: parameter cannot occur after spread")]),
    ("{@fn a\u{2}(§*$x) . -> 1}", false, &[(0, "Syntax error: positional spread parameter must begin with underscore")]),
    ("{@fn a\u{2}(§**$_x) . -> 1}", false, &[(0, "Syntax error: named spread parameter must not begin with underscore")]),
    ("{@fn a\u{2} §*$_x -> 1}", false, &[(0, "Syntax error: content parameter cannot be spread")]),
    ("{@fn a\u{2} §**$x -> 1}", false, &[(0, "Syntax error: content parameter cannot be spread")]),
    ("{@fn a\u{2} $x: §foo -> 1}", false, &[(0, "Syntax error: not a primitive type name")]),
    ("{@fn a\u{2} $x: int?§? -> 1}", false, &[(0, "Warning: type modifier '?' is redundant here")]),
    ("{@fn a\u{2} $x: any§? -> 1}", false, &[(0, "Warning: type modifier '?' is redundant here")]),
    ("{@fn a\u{2} $x: none§? -> 1}", false, &[(0, "Warning: type modifier '?' is redundant here")]),
    ("{@fn a\u{2} $x: html§? -> 1}", false, &[(0, "Warning: type modifier '?' is redundant here")]),
    ("{@fn a\u{2} . §1}", false, &[(0, "Syntax error: expected '->', was int literal")]),
    ("{@fn §1 . -> 1}", false, &[(0, "Syntax error: expected variable name, was int literal")]),
    ("@match 1 {(§_x=1) -> ., _ -> .}", false, &[(0, "Syntax error: named pattern cannot begin with underscore")]),
    ("@match 1 {<b>_§</i> -> ., _ -> .}", false, &[(0, "Syntax error: incorrect closing tag in match pattern; use </> for unnamed tag")]),
    ("@match 1 {_: §foo -> ., _ -> .}", false, &[(0, "Syntax error: not a primitive type name")]),
    ("@match \"a §&nosuch; b\" {_ -> .}", false, &[(0, "Syntax error: invalid entity")]),
    ("@match \"a §\\xzz b\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§&#xffffffff; é", false, &[(0, "Syntax error: invalid entity")]),
    ("§&#xd800; é", false, &[(0, "Syntax error: invalid entity")]),
    ("§&#; é", false, &[(0, "Syntax error: invalid entity")]),
    ("§\\xzz", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\uzzzz", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\u12", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\U0011ffff", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("<!§x>", false, &[(0, "Syntax error: expected 'DOCTYPE'")]),
    ("$idc_::§ é", false, &[(0, "Syntax error: expected name, was whitespace")]),
    ("§@fn . -> 1", false, &[(0, "Syntax error: anonymous function not allowed here")]),
    ("<b x=1 §x=2>é</b>", false, &[(0, "Syntax error: duplicate attribute name 'x'"), (0, "Runtime error: received multiple values for attribute 'x'")]),
    ("<b x y §x>é</b>", false, &[(0, "Syntax error: duplicate attribute name 'x'"), (0, "Runtime error: received multiple values for attribute 'x'")]),
    ("<b x=1 y=2 §x?=3>é</b>", false, &[(0, "Syntax error: duplicate attribute name 'x'"), (0, "Runtime error: received multiple values for attribute 'x'")]),
    ("@named_(x=1, §x=2).", false, &[(0, "Syntax error: duplicate named argument 'x'"), (0, "Runtime error: received multiple named arguments for parameter 'x'")]),
    ("§@named_(x=1, §2).", false, &[(1, "Syntax error: positional argument cannot occur after named argument"), (0, "Type error: too many positional arguments (expected 0, was 1)")]),
    ("§@let {é}", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("§@let() {é}", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("§@implicit {é}", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("@let(x=1, §x=§2) {é}", false, &[(0, "Syntax error: duplicate named argument 'x'"), (1, "Warning: name 'x' already declared")]),
    ("{@fn a\u{2}(*$_x=§1) . -> 1}", false, &[(0, "Syntax error: spread parameter cannot have default value")]),
    ("{@fn a\u{2} $x=§1 -> 1}", false, &[(0, "Syntax error: content parameter cannot have default value")]),
    ("{@fn a\u{2} $x: int §foo -> 1}", false, &[(0, "Syntax error: not a type modifier")]),
    ("{@fn a\u{2} $x: int list §foo dict -> 1}", false, &[(0, "Syntax error: not a type modifier")]),
    ("{@fn a\u{2} $x: int? list? §? -> 1}", false, &[(0, "Warning: type modifier '?' is redundant here")]),
    ("@match 1 {[*_, *§_] -> ., _ -> .}", false, &[(0, "Syntax error: match pattern cannot have multiple spreads")]),
    ("@match 1 {[*$x, 1, *§$y] -> ., _ -> .}", false, &[(0, "Syntax error: match pattern cannot have multiple spreads")]),
    ("@match 1 {(**$x, y=§1) -> ., _ -> .}", false, &[(0, "Syntax error: named pattern cannot occur after spread")]),
    ("@match 1 {(x=1, x=§2) -> ., _ -> .}", false, &[(0, "Syntax error: duplicate named pattern 'x'")]),
    ("@match 1 {<b>§</i> -> ., _ -> .}", false, &[(0, "Syntax error: incorrect closing tag in match pattern; use </> for unnamed tag")]),
    ("@match 1 {<b x=1 x=§2>_</> -> ., _ -> .}", false, &[(0, "Syntax error: duplicate named pattern 'x'")]),
    ("@match 1 {_: int? §? -> ., _ -> .}", false, &[(0, "Warning: type modifier '?' is redundant here")]),
    ("§&nosuch é", false, &[(0, "Syntax error: entity must end with a semicolon ';'"), (0, "Syntax error: invalid entity")]),
    ("§&eacute é", false, &[(0, "Syntax error: entity must end with a semicolon ';'"), (0, "Syntax error: invalid entity")]),
    ("@match [§`a``] {_ -> .}", false, &[(0, "Syntax error: too many backticks in string literal closing delimiter")]),
    ("<!§x>", false, &[(0, "Syntax error: expected 'DOCTYPE'")]),
    ("§@code(first_line_no=3) `a`", false, &[(0, "Warning: cannot enumerate lines in inline code")]),
    ("§@code ```\na\nb\n```", false, &[(0, "Warning: inline code cannot be multiple lines")]),
    ("§@code(language=`foo`) `a`", false, &[(0, "Warning: no syntax highlighter found for language \"foo\"")]),
    ("§@code(code_block=True) ```foo\na\n```", false, &[(0, "Warning: no syntax highlighter found for language \"foo\"")]),
    ("§@import `n\u{2}`", false, &[(0, "Module error: No such file or directory (os error 2) in \"\u{1}n\u{2}.papyri\"")]),
    ("§@include `no/n\u{2}`", false, &[(0, "Module error: No such file or directory (os error 2) in \"\u{1}no/n\u{2}.papyri\"")]),
    ("§@file::list `no/n\u{2}`", false, &[(0, "Module error: No such file or directory (os error 2) in \"\u{1}no/n\u{2}\"")]),
    ("§@file::read `no/n`", false, &[(0, "Runtime error: failed to read file \"no/n\" (No such file or directory (os error 2))")]),
    ("@let(imp_=@fn($xq_: @implicit int) . -> $xq_) §@imp_.", false, &[(0, "Runtime error: missing required implicit parameter 'xq_'")]),
    ("@let(xq_=1, imp_=@fn($xq_: @implicit int) . -> $xq_) §@imp_.", false, &[(0, "Runtime error: required implicit parameter 'xq_'; this name exists but is not declared implicit")]),
    ("@implicit(xq_=`é`) @let(imp_=@fn($xq_: @implicit int) . -> $xq_) §@imp_.", false, &[(0, "Type error: expected int, was str")]),
    ("@match 1 {(**$x, **§$y) -> ., _ -> .}", false, &[(0, "Syntax error: cannot have multiple spread parameters")]),
    ("@match 1 {<b **$x **§$y>_</> -> ., _ -> .}", false, &[(0, "Syntax error: cannot have multiple spread parameters")]),
    ("@match 1 {<b **$x y=§1>_</> -> ., _ -> .}", false, &[(0, "Syntax error: named pattern cannot occur after spread")]),
    ("@match 1 {{§[1]} -> ., _ -> .}", false, &[(0, "Syntax error: this pattern cannot match HTML content")]),
    ("@match 1 {<b §_x=1>_</> -> ., _ -> .}", false, &[(0, "Syntax error: named pattern cannot begin with underscore")]),
    ("@match 1 {(x§) -> ., _ -> .}", false, &[(0, "Syntax error: expected '=', was ')'")]),
    ("@match 1 {[§**$x] -> ., _ -> .}", false, &[(0, "Syntax error: named spread not allowed here")]),
    ("@match 1 {{§**_} -> ., _ -> .}", false, &[(0, "Syntax error: named spread not allowed here")]),
    ("@match 1 {<b ... x=§1>_</> -> ., _ -> .}", false, &[(0, "Syntax error: named pattern cannot occur after spread")]),
    ("@match 1 {<b ... §...>_</> -> ., _ -> .}", false, &[(0, "Syntax error: cannot have multiple spread parameters")]),
    ("@match 1 {[..., §...] -> ., _ -> .}", false, &[(0, "Syntax error: match pattern cannot have multiple spreads")]),
    ("@match 1 {_: int §foo -> ., _ -> .}", false, &[(0, "Syntax error: not a type modifier")]),
    ("@match 1 {\"§$a::b\" -> ., _ -> .}", false, &[(0, "Syntax error: variable pattern must be a simple name, not attribute access")]),
    ("@match 1 {[1 §2] -> ., _ -> .}", false, &[(0, "Syntax error: expected ']', was int literal")]),
    ("@match 1 {(x=1 §y=2) -> ., _ -> .}", false, &[(0, "Syntax error: expected ')', was name")]),
    ("@match 1 {1 -> 2 §3 -> 4}", false, &[(0, "Syntax error: expected '}', was int literal")]),
    ("@match 1 §2", false, &[(0, "Syntax error: expected '{', was int literal")]),
    ("@id_ §,", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §)", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §=", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §?", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §:", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §<1>", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §<$>", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §</b>", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ <!§x>", false, &[(0, "Syntax error: expected 'DOCTYPE'")]),
    ("§</ b>", false, &[(0, "Syntax error: malformed closing tag")]),
    ("§</b", false, &[(0, "Syntax error: malformed closing tag")]),
    ("§</b x>", false, &[(0, "Syntax error: malformed closing tag")]),
    ("@fn a\u{2} . §= 1", false, &[(0, "Syntax error: expected '->', was '='")]),
    ("@fn a\u{2} . -> §,", false, &[(0, "Syntax error: expected expression")]),
    ("@fn a\u{2}($a §$b) . -> 1", false, &[(0, "Syntax error: expected ')', was variable name")]),
    ("@fn a\u{2}($a:§) . -> 1", false, &[(0, "Syntax error: expected name, was ')'")]),
    ("@fn a\u{2}($a: §foo) . -> 1", false, &[(0, "Syntax error: not a primitive type name")]),
    ("@fn a\u{2}($a: int §foo) . -> 1", false, &[(0, "Syntax error: not a type modifier")]),
    ("@fn a\u{2}($a: @implicit§) . -> 1", false, &[(0, "Syntax error: expected name, was ')'")]),
    ("@fn §1 . -> 1", false, &[(0, "Syntax error: expected variable name, was int literal")]),
    ("§@fn $x -> 1", false, &[(0, "Syntax error: anonymous function not allowed here")]),
    ("@fn a\u{2} §-> 1", false, &[(0, "Syntax error: expected variable name, was '->'")]),
    ("@fn a\u{2}() §-> 1", false, &[(0, "Syntax error: expected variable name, was '->'")]),
    ("@fn a\u{2}($a) §... -> 1", false, &[(0, "Syntax error: expected variable name, was ellipsis")]),
    ("@fn a\u{2}(**$a, §$b) . -> 1", false, &[(0, "Syntax error: parameter cannot occur after spread")]),
    ("@let(§x)...", false, &[(0, "Syntax error: positional argument not allowed in this declaration")]),
    ("@let(§1)...", false, &[(0, "Syntax error: positional argument not allowed in this declaration")]),
    ("@let(x=1) §2", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1) §`a`", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("@let(x=1) §,", false, &[(0, "Syntax error: expected expression")]),
    ("@let(x=1 §y=2)...", false, &[(0, "Syntax error: expected ')', was name")]),
    ("@let(§*x)...", false, &[(0, "Syntax error: positional spread not allowed here")]),
    ("@let(§**x)...", false, &[(0, "Syntax error: named spread not allowed here")]),
    ("@let(§*$x)...", false, &[(0, "Syntax error: positional spread not allowed here")]),
    ("§@let()...", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("§@let x=1", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("@implicit(x=1) §2", false, &[(0, "Syntax error: let expression with literal has no effect; did you mean '...'?")]),
    ("§@export x", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("@export(x=1) §1", false, &[(0, "Syntax error: expected '.', was int literal")]),
    ("§@export()", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("§@export().", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("@export(§1).", false, &[(0, "Syntax error: positional argument not allowed in this declaration")]),
    ("@export §@fn . -> 1", false, &[(0, "Syntax error: anonymous function not allowed here")]),
    ("§@export @match 1 {_ -> .}", false, &[(0, "Syntax error: missing named declarations; expected '(name=value, ...)'")]),
    ("@id_ §@export(x=1).", false, &[(0, "Syntax error: '@export' declaration not allowed here")]),
    ("$id_::§ x", false, &[(0, "Syntax error: expected name, was whitespace")]),
    ("$id_::§99999999999999999999", false, &[(0, "Syntax error: invalid number (number too large to fit in target type)")]),
    ("@match \"$id_::§\" {_ -> .}", false, &[(0, "Syntax error: expected name, was double-quote")]),
    ("@match \"§&nosuch;\" {_ -> .}", false, &[(0, "Syntax error: invalid entity")]),
    ("@match \"§\\xzz\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("@match \"§\\u\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("@match \"§\\u{}\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("@match \"§\\u{110000}\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("@match \"§\\u{d800}\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("@match \"§\\x4\" {_ -> .}", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\u", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\u00", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\x", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§\\xg", false, &[(0, "Syntax error: invalid Unicode escape")]),
    ("§&#;", false, &[(0, "Syntax error: invalid entity")]),
    ("§&#x;", false, &[(0, "Syntax error: invalid entity")]),
    ("§&#xg;", false, &[(0, "Syntax error: invalid entity")]),
    ("§&#1114112;", false, &[(0, "Syntax error: invalid entity")]),
    ("§&#55296;", false, &[(0, "Syntax error: invalid entity")]),
    ("§&foo;", false, &[(0, "Syntax error: invalid entity")]),
    ("§`a``", false, &[(0, "Syntax error: too many backticks in string literal closing delimiter")]),
    ("§`\n`", false, &[(0, "Syntax error: multiline string literal must be delimited by at least three backticks")]),
    ("§``\n``", false, &[(0, "Syntax error: multiline string literal must be delimited by at least three backticks")]),
    ("@id_ §99999999999999999999", false, &[(0, "Syntax error: invalid number (number too large to fit in target type)")]),
    ("@id_ §-99999999999999999999", false, &[(0, "Syntax error: invalid number (number too small to fit in target type)")]),
    ("@id_ §-", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §--1", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §_", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §|", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §*", false, &[(0, "Syntax error: expected expression")]),
    ("@id_ §->", false, &[(0, "Syntax error: expected expression")]),
    ("§]", false, &[(0, "Syntax error: unmatched ']'")]),
    ("@match [1, 1] {[$x, §$x] -> ., _ -> .}", false, &[(0, "Warning: name 'x' already bound in this pattern; did you mean '=$x'?")]),
    ("@match [1, 1] {$x & [§$x, _] -> ., _ -> .}", false, &[(0, "Warning: name 'x' already bound in this pattern; did you mean '=$x'?")]),
    ("@match 1 {§$x: $x -> ., _ -> .}", false, &[(0, "Warning: name 'x' already bound in this pattern; did you mean '=$x'?")]),
    ("@match @dict::new(x=1). {(x=$x, **§$x) -> ., _ -> .}", false, &[(0, "Warning: name 'x' already bound in this pattern; did you mean '=$x'?")]),
    ("§@regex::compile `(`", false, &[(0, "Runtime error: regex syntax error (regex parse error:\n    (\n    ^\nerror: unclosed group)")]),
    ("§@regex::compile `é[z-a]`", false, &[(0, "Runtime error: regex syntax error (regex parse error:\n    é[z-a]\n      ^^^\nerror: invalid character class range, the start must be <= the end)")]),
];

/// Snippets which are the last thing in a file, with the first thing that is reported about them.
pub const FIRST: &[(&str, &str)] = &[
    ("@match 1 {§foo -> ., _ -> .}", "Syntax error: bare name not allowed in match pattern; use $ for variable name or backticks for string literal"),
    ("@match 1 {[§foo] -> ., _ -> .}", "Syntax error: bare name not allowed in match pattern; use $ for variable name or backticks for string literal"),
    ("@match 1 {(x=§foo) -> ., _ -> .}", "Syntax error: bare name not allowed in match pattern; use $ for variable name or backticks for string literal"),
    ("@match 1 {§$a::b -> ., _ -> .}", "Syntax error: variable pattern must be a simple name, not attribute access"),
    ("@match 1 {§$a::0 -> ., _ -> .}", "Syntax error: variable pattern must be a simple name, not indexed access"),
    ("@match 1 {[§$a::b] -> ., _ -> .}", "Syntax error: variable pattern must be a simple name, not attribute access"),
    ("@match 1 {_: §$a::b -> ., _ -> .}", "Syntax error: variable pattern must be a simple name, not attribute access"),
    ("@match 1 {(§1) -> ., _ -> .}", "Syntax error: expected name, was int literal"),
    ("@match 1 {(§*$x) -> ., _ -> .}", "Syntax error: positional spread not allowed here"),
    ("@match 1 {[§x=1] -> ., _ -> .}", "Syntax error: bare name not allowed in match pattern; use $ for variable name or backticks for string literal"),
    ("@match 1 {<b §*$x>_</> -> ., _ -> .}", "Syntax error: positional spread not allowed here"),
    ("@match 1 {§* -> ., _ -> .}", "Syntax error: positional spread not allowed here"),
    ("@match 1 {§** -> ., _ -> .}", "Syntax error: named spread not allowed here"),
    ("@match 1 {§... -> ., _ -> .}", "Syntax error: wildcard spread not allowed here"),
    ("@match 1 {_: §-> ., _ -> .}", "Syntax error: expected name, was '->'"),
    ("@match 1 {$x: int §$y -> ., _ -> .}", "Syntax error: expected '->', was variable name"),
    ("@match 1 {$x §is int -> ., _ -> .}", "Syntax error: expected '->', was name"),
    ("@match 1 {1 | §-> ., _ -> .}", "Syntax error: unexpected '->'"),
    ("@match 1 {1 & §-> ., _ -> .}", "Syntax error: unexpected '->'"),
    ("@match 1 {= §-> ., _ -> .}", "Syntax error: expected expression"),
    ("@match 1 {\"a -> ., _ -> .§}", "Syntax error: unexpected '}'"),
    ("@match 1 {[1, 2 §-> ., _ -> .}", "Syntax error: expected ']', was '->'"),
    ("@match 1 {1 §., _ -> .}", "Syntax error: expected '->', was '.'"),
    ("@match 1 {1 -> §}", "Syntax error: expected expression"),
    ("@match 1 {§-> 1}", "Syntax error: unexpected '->'"),
    ("@match 1 { §, }", "Syntax error: unexpected ','"),
    ("@match 1 {<§$t::x>_</> -> ., _ -> .}", "Syntax error: variable pattern must be a simple name, not attribute access"),
    ("@match 1 {<b>_ §-> ., _ -> .}", "Syntax error: expected closing tag, was '->'"),
    ("@match 1 {<b> §-> ., _ -> .}", "Syntax error: unexpected '->'"),
    ("@match 1 {<br>§_</> -> ., _ -> .}", "Syntax error: expected '->', was '_'"),
    ("@match 1 {<b x§?>_</> -> ., _ -> .}", "Syntax error: expected name, was '?'"),
    ("@match 1 {<b x§?=1>_</> -> ., _ -> .}", "Syntax error: expected name, was '?'"),
    ("@match 1 {<b §1>_</> -> ., _ -> .}", "Syntax error: expected name, was int literal"),
    ("@match 1 {<§>_</> -> ., _ -> .}", "Syntax error: unexpected '>'"),
    ("@match 1 {<§1>_</> -> ., _ -> .}", "Syntax error: unexpected int literal"),
    ("@match 1 {§@f -> ., _ -> .}", "Syntax error: unexpected function name"),
    ("@match 1 {§@fn . -> 1 -> ., _ -> .}", "Syntax error: unexpected keyword"),
    ("@match 1 {$x §$y -> .}", "Syntax error: expected '->', was variable name"),
    ("@match 1 {[=$a, =§] -> ., _ -> .}", "Syntax error: expected expression"),
    ("@id_(1, 2§]", "Syntax error: expected ')', was ']'"),
    ("@id_(1 §2).", "Syntax error: expected ')', was int literal"),
    ("@id_(1,§,2).", "Syntax error: expected expression"),
    ("@id_(§,).", "Syntax error: expected expression"),
    ("@id_(*§).", "Syntax error: expected expression"),
    ("@id_(foo=§).", "Syntax error: expected expression"),
    ("@id_(§=1).", "Syntax error: expected expression"),
    ("@id_ <b x=§>", "Syntax error: expected expression"),
    ("@id_ <b §=1>", "Syntax error: expected name, was '='"),
    ("@id_ <b x y=1 §, z>x</b>", "Syntax error: expected name, was ','"),
    ("@id_ <b x§?>a</b>", "Syntax error: expected '='"),
    ("@id_ <b x§? >a</b>", "Syntax error: expected '='"),
    ("@id_ <b §?>a</b>", "Syntax error: expected name, was '?'"),
    ("@id_ <b §*$x>a</b>", "Syntax error: positional spread not allowed here"),
    ("@id_ <b §...>a</b>", "Syntax error: expected name, was ellipsis"),
    ("@id_ <b **§>a</b>", "Syntax error: expected expression"),
    ("@id_ <b **§,>a</b>", "Syntax error: expected expression"),
    ("<b x=1 §/ >a</b>", "Syntax error: expected name, was text"),
    ("<b §/ >", "Syntax error: expected name, was text"),
    ("<$id_ x>a§</b>", "Syntax error: unmatched closing tag"),
    ("<$id_>a§</$id_>", "Syntax error: malformed closing tag"),
    ("<b>a§</b x>", "Syntax error: malformed closing tag"),
    ("@fn a\u{2} $a §$b -> 1", "Syntax error: expected '->', was variable name"),
    ("@fn a\u{2}($a §. -> 1", "Syntax error: expected ')', was '.'"),
    ("@fn a\u{2}($a,§, $b) . -> 1", "Syntax error: expected variable name, was ','"),
    ("@fn a\u{2}(§a) . -> 1", "Syntax error: expected variable name, was name"),
    ("@fn a\u{2}(§1) . -> 1", "Syntax error: expected variable name, was int literal"),
    ("@fn a\u{2}(*§) . -> 1", "Syntax error: expected variable name, was ')'"),
    ("@fn a\u{2}($a: §1) . -> 1", "Syntax error: expected name, was int literal"),
    ("@fn a\u{2}($a: §@let int) . -> 1", "Syntax error: expected name, was keyword"),
    ("@fn a\u{2}($a=§) . -> 1", "Syntax error: expected expression"),
    ("@fn a\u{2}($a?=§) . -> 1", "Syntax error: expected expression"),
    ("@fn a\u{2}($a? §int) . -> 1", "Syntax error: expected ')', was name"),
    ("@fn a\u{2}($a = 1 §: int) . -> 1", "Syntax error: expected ')', was ':'"),
    ("@fn §@a\u{2} . -> 1", "Syntax error: expected variable name, was function name"),
    ("@fn a\u{2}(§_a) . -> 1", "Syntax error: expected variable name, was name"),
    ("@fn a\u{2}($a§::b) . -> 1", "Syntax error: expected ')', was '::'"),
    ("@let(§x)", "Syntax error: positional argument not allowed in this declaration"),
    ("@let(x=§)...", "Syntax error: expected expression"),
    ("@let(x §1)...", "Syntax error: expected ')', was int literal"),
    ("@let($x§=1)...", "Syntax error: expected ')', was '='"),
    ("§@export @implicit(x=1) 1", "Syntax error: missing named declarations; expected '(name=value, ...)'"),
    ("$id_::§$x", "Syntax error: expected name, was variable name"),
    ("\"§&amp\"", "Syntax error: entity must end with a semicolon ';'"),
    ("§&amp", "Syntax error: entity must end with a semicolon ';'"),
    ("§``", "Syntax error: unexpected end of source in string literal"),
    ("§```", "Syntax error: unexpected end of source in string literal"),
    ("§```a", "Syntax error: unexpected end of source in string literal"),
    ("§``a`", "Syntax error: unexpected end of source in string literal"),
    ("§```\na", "Syntax error: unexpected end of source in string literal"),
    ("§````a```", "Syntax error: unexpected end of source in string literal"),
];
