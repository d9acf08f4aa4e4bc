
 ���{y��P���d�6���:�?JH���0�����D�g)�P��E�bY�٠%54�R"�H�ĈS}��K�^�5�v(ExK�ԆK�.�*�K�)~,o^�E��{��ŀ.������NI�EMI�'�-�	���0R�2���a�>�H���<�����N����ԺE��<����Z��H��i�C����h�D�ruY+2O���`
j�sm�*