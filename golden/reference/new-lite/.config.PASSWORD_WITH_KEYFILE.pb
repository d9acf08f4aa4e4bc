
 �ҫ�a�8�I&p<G�:�6���v��&����B����w��b�]�R��|b�r�T9��~�"���c����j�V�FR�	�b�\�8����_��K$L4��S4D� ��X:�P����P%L�i�զ%\5��&]I]��܌�e)Q輦z�h�fNt�p���nK��I|���?9%G��Z���K8��,�D�ӵ"na���!Ȩ�HV_*