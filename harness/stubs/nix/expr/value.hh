// The server only needs the file to exist.
