package parser
