module vimagination.zapto.org/byteio

go 1.24
