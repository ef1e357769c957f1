//# params stylish::io::ansi
inner
//# fn stylish::io::ansi
    ensures r.inner == inner, r.current == default_style(),
//# params stylish::io::plain
inner
//# fn stylish::io::plain
    ensures r.inner == inner,
//# params stylish::ansi
inner
//# fn stylish::ansi
    ensures r.inner == inner, r.current == default_style(),
//# params stylish::html
inner
//# fn stylish::html
    ensures r.inner == inner, r.current == default_style(),
//# params stylish::plain
inner
//# fn stylish::plain
    ensures r.inner == inner,
