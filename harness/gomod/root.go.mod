module github.com/charlesetsmith/saratoga

go 1.21.4

require github.com/jroimartin/gocui v0.5.0
