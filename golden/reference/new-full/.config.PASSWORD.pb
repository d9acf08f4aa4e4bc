
 Xl�$�����p��\zL��Y�Z/�G6ڼ(G�OyS��~ј�E���SU���US�s#6 "+�� �7����hE���4Rb���Z���un��X�JO�Ht�*