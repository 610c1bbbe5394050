------------------------------ MODULE HtmlFrags -----------------------------
(* Pieces of HTML, from which the generators of whole documents draw.       *)
Frags == << "plain", "two  words", "\n", "\t", " ", "\r\n", "\r", "é", "日本", "😀", "&nbsp;", "&amp;", "&#0;", "&lt;b&gt;", "<!-- c -->", "<!DOCTYPE html>", "<title>T</title>",
  "<p>para", "</p>", "<div>", "</div>", "<b>bold</b>", "<em>it", "</em>", "<strong> s </strong>", "a*b_c", "1. x", "# y", "> z", "- q", "[l](u)", "`", "~~", "\\",
  "<h1>Head</h1>", "<h2>Sub<br>line</h2>", "<ul><li>a<li>b</ul>", "<ol start=9><li>a<li>b<li>c</ol>", "<ol><li>x<ul><li>y</ul></ol>", "<ul>", "<li>item", "</li></ul>", "<ol start=0>",
  "<blockquote>q<p>r</blockquote>", "<pre><code class=\"language-go\">x\n  y\n```\n</code></pre>", "<code>c`d</code>", "<pre>", "</pre>", "<br>", "<hr>",
  "<a href=\"/rel?b=1&a=2\">l</a>", "<a href=\"page.html\" title=\"t\">m</a>", "<a href=\"https://e.com/#f\">n</a>", "<img src=\"/i.png\" alt=\"alt\">", "<a href=\"/x\"><img src=\"y z.png\"></a>", "<a>no</a>",
  "<table><tr><th>A<th>B<tr><td>1<td>2</table>", "<table><tr><td colspan=2>c<tr><td>1<td>2</table>", "<table>", "<tr><td>", "</table>", "<del>gone</del>", "<script>var x=1</script>", "<style>p{}</style>", "<input value=v>", "<svg><title>s</title></svg>", "<x-y>custom</x-y>", "<", "<p", "&" >>
============================================================================
