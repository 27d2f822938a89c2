package byteio
