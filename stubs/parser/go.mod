module vimagination.zapto.org/parser

go 1.24
