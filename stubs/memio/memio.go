package memio
