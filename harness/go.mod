module verifharness

go 1.25.0

require (
	github.com/JohannesKaufmann/dom v0.3.1
	github.com/JohannesKaufmann/html-to-markdown/v2 v2.0.0
	golang.org/x/net v0.55.0
)

replace github.com/JohannesKaufmann/html-to-markdown/v2 => /repo
