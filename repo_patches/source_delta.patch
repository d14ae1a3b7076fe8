From f897f001c2ad9b51820f2ee02381b828c75688b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:35 +0000
Subject: [PATCH 001/107] fix: Hebrew new year is postponed when the molad
 falls exactly at noon (18h)

---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..2455c79 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From 0312280fad2d319cf1b65a421c6d127cfb1fa516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:35 +0000
Subject: [PATCH 002/107] fix: last month of Persian year 2327 had a bogus
 length (start of year 2328 was undefined)

---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 2455c79..6cc74df 100644
--- a/date.cpp
+++ b/date.cpp
@@ -470,7 +470,7 @@ static void get_revolutionary_year_data( const long year, long *days,
 static long jalali_jd0( const int jalali_year)
 {
    static const short breaks[12] = { -708, -221,   -3,    6,  394,  720,
-                                      786, 1145, 1635, 1701, 1866, 2328 };
+                                      786, 1145, 1635, 1701, 1866, 2329 };
    static const short deltas[12] = { 1108, 1047,  984, 1249,  952,  891,
                                       930,  866,  869,  844,  848,  852 };
    long rval;
-- 
2.43.0


From 8eb1a8acb10093ccd47878c81e81231640ecfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:35 +0000
Subject: [PATCH 003/107] fix: Chinese years with an intercalary twelfth month
 of 30 days lost its last day (day_to_dmy looped forever)

---
 chinese.dat | 12 ++++++------
 chinese.h   | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/chinese.dat b/chinese.dat
index e9ee402..69681ad 100644
--- a/chinese.dat
+++ b/chinese.dat
@@ -3,17 +3,17 @@
 �V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�SG�RG���KU�U��
 �lՈ�ũ���Rw����������V�����ڊ����K��M��M�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
 �ZՈj��ʔ�v�R���ưU���ʊ�ʩlE�iK��K�b�E�)�Uu�VE��
-��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
+��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
 �Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ۂ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
-�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����I˒JͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
+�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����IےJͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
 �M�UE��ʌ�J��ś�+������%���ʢW�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
-�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
+�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
 �ZՁlŢiK���R��%׊�ʩU���������E��+~�K�����M�)�UY�Z	��
 ��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��c��bG�I�S��UE��
 �lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���kËt��iG�RW�RK��
 �K5�U��
 �j�z�ś�+�������ڃ���V����|ڊ�Յ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
-�Ze�mE��ʔԶ�d��I���N~����ċ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
+�Ze�mE��ʔԶ�d��I���N~����ԋ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
 �Z�zj��&���R�����ʢM����|�ʛtE�i+w�K�����M�%�U5�VE��
 ���z�ś�M������&̓��Z��ڊ|ꊝ�F��.wIG��������D�ki~uE�j�d�z�ǛI��I��ʔ-��Ģ�ō��|ҋ���I;wJM�����J�ZE��f~�F��͍��z��Jm�K��
 �Z�lŢ醏R�|R���F�K5wU���ꃵ��t��k~�K��ˍ%�z%�U5�V��ʔ���Ţɍ��]~���*͋�̩ZE���ꊤ���.�IG���*�z+�kI�uE�j˔d׃�ǢI����|���-���iu������ҍ���I;�J��
@@ -22,7 +22,7 @@
 �Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛KK�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
 �j��Ţ�ˍR�|���EK�S�uU����֊��E��k~�M��͍Ey*�Vʇ[I��
 ����Ƣю���|�ƛ+��Z*wkɔj�r��h�Qw~QG���KyUE�����I��˔���ˢR����|�ʛV���juي���ԅ��N�J]�RM��
-�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
+�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
 �MUwVE�����J����K��������z�ʛZ���ju�ʔԶ�d��IO���~����L�Zym��j���K��ǔIw�I��ʍ��z���ņ��uҋ������JM���~V���D��Ew�F�����s�ΔJ-�KE��
 �Z�zjÛ�ƆҎuR������ʢK����|���jE�iKw�K�Rǆ%�q�
 �Uu�V��
@@ -54,7 +54,7 @@ t
 ��6rd�I���n��+�y-��Ɇjt�˔�G�IWpI���Z}���5E���uՅ�����s��J���l�ʍV�yZ��ʆ��u�Ɣ���JmpK���
 |�ʛjE��wi��R�%7r%�K~�
 k�
-�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
+�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
 ���{dǛIφ��u�Ɣ+��[�l�ɍjK|d�j�G�I�wIK��
 �+�pUE��
 ~��l���[{�͛J���:t�ʔV����n�ʍ�E|�.i�N�J�wK���J�Z5rjE��
diff --git a/chinese.h b/chinese.h
index 8cf6a90..abda8e1 100644
--- a/chinese.h
+++ b/chinese.h
@@ -125,7 +125,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xca, 0xa2, 0x2d, 0x55, 0x90, 0xd6, 0xc4, 0xb0,
 0xb5, 0xc9, 0x9b, 0x72, 0xab, 0x8a, 0xb4, 0x8b,
 0xab, 0xa8, 0x0b, 0x9a, 0x51, 0x5b, 0x85, 0x52,
-0x4d, 0xa6, 0xa5, 0x8a, 0x94, 0xaa, 0x4a, 0xb4,
+0x4d, 0xa6, 0xa5, 0x9a, 0x94, 0xaa, 0x4a, 0xb4,
 0x56, 0x45, 0x9f, 0xb5, 0x89, 0x8c, 0xd9, 0x45,
 0xad, 0xd4, 0xcd, 0x9b, 0xa8, 0xcd, 0x88, 0xa9,
 0x0e, 0xa8, 0x52, 0x8d, 0x96, 0xa6, 0x6a, 0x83,
@@ -182,7 +182,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc2, 0xa2, 0x6b, 0xe5, 0x90, 0x75, 0x05, 0xaf,
 0x6a, 0x8b, 0x9d, 0x64, 0x97, 0x8c, 0xa4, 0x47,
 0xad, 0x49, 0x47, 0x98, 0x95, 0x56, 0x85, 0x55,
-0x46, 0xa6, 0xad, 0x82, 0x94, 0xb6, 0x82, 0xb2,
+0x46, 0xa6, 0xad, 0x92, 0x94, 0xb6, 0x82, 0xb2,
 0xb5, 0x45, 0x9f, 0xb2, 0x6b, 0x8e, 0xd2, 0x0b,
 0xaf, 0xa4, 0xcb, 0x9b, 0x49, 0xfb, 0x88, 0x4a,
 0xcd, 0xa9, 0x56, 0x8a, 0x96, 0xb6, 0xb2, 0x81,
@@ -207,7 +207,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x49, 0xef, 0x7f, 0x49, 0x07, 0xa1, 0x95, 0x76,
 0x8e, 0x55, 0x4a, 0xad, 0xb5, 0x02, 0x9a, 0x6d,
 0x25, 0x87, 0xb5, 0x05, 0xa8, 0xb2, 0xcb, 0x94,
-0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xcb,
+0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xdb,
 0x92, 0x4a, 0xcd, 0xb0, 0x56, 0x8a, 0x9d, 0xb6,
 0xd4, 0x8a, 0xda, 0x82, 0xab, 0xd5, 0x85, 0x96,
 0xd2, 0x4b, 0x85, 0xd2, 0x4d, 0xa6, 0xa4, 0xcd,
@@ -250,7 +250,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x7f, 0xc9, 0x4e, 0x9f, 0x92, 0x6e, 0x8e, 0x95,
 0x46, 0xad, 0xab, 0x0c, 0x9a, 0x5a, 0x45, 0x87,
 0x6d, 0x45, 0xa6, 0xea, 0xca, 0x94, 0xe4, 0x96,
-0x83, 0x64, 0xc7, 0xa2, 0x49, 0x07, 0x91, 0x49,
+0x83, 0x64, 0xc7, 0xa2, 0x49, 0x17, 0x91, 0x49,
 0xc7, 0xb0, 0x95, 0x86, 0x9d, 0x2b, 0x15, 0x89,
 0xb5, 0xc4, 0xa9, 0xb5, 0x85, 0x96, 0x6a, 0x4b,
 0x85, 0xb2, 0x8b, 0xa4, 0xa4, 0x07, 0x93, 0x49,
@@ -264,7 +264,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4a, 0x0d, 0x80, 0x4b, 0x45, 0x9f, 0xab, 0xca,
 0x8c, 0xad, 0x8a, 0xab, 0x6c, 0x05, 0x9a, 0x69,
 0x2b, 0x87, 0xa9, 0x0b, 0xa8, 0x52, 0xc7, 0x94,
-0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x05,
+0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x15,
 0x91, 0x56, 0x05, 0xaf, 0xb5, 0xca, 0x9b, 0xb4,
 0xd5, 0x8a, 0xd4, 0x85, 0xab, 0xa9, 0x8b, 0x96,
 0x92, 0x7b, 0x85, 0x92, 0x4d, 0xa6, 0x25, 0x0b,
@@ -404,7 +404,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x0a, 0x9a, 0x5a, 0x65, 0x89, 0x6d, 0x45, 0xa6,
 0xea, 0xca, 0x94, 0xd4, 0xb6, 0x83, 0x64, 0x87,
 0xa4, 0x49, 0x8f, 0x8f, 0x92, 0x4e, 0x7e, 0x95,
-0x86, 0x9d, 0xab, 0xc4, 0x8b, 0xad, 0xc2, 0xa9,
+0x86, 0x9d, 0xab, 0xd4, 0x8b, 0xad, 0xc2, 0xa9,
 0x6d, 0x85, 0x96, 0x6a, 0x8b, 0x85, 0xb2, 0x4b,
 0xa6, 0xa4, 0x07, 0x93, 0x49, 0x37, 0x80, 0x49,
 0x0b, 0xa1, 0x95, 0xca, 0x8d, 0x2d, 0xf5, 0x78,
@@ -536,7 +536,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4e, 0x77, 0x53, 0x86, 0x96, 0xab, 0x4a, 0x82,
 0xad, 0xc2, 0xa2, 0x6d, 0x85, 0x8f, 0x6a, 0x8b,
 0x7e, 0xaa, 0x8b, 0x9d, 0xa4, 0x07, 0x8c, 0x49,
-0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x86, 0x86,
+0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x96, 0x86,
 0x56, 0x4a, 0xa6, 0xb5, 0x02, 0x93, 0xb5, 0x65,
 0x80, 0xd5, 0x45, 0x9f, 0xd2, 0xcb, 0x8d, 0xa4,
 0xbb, 0x7c, 0xa4, 0x8d, 0x9d, 0x49, 0x8d, 0x88,
@@ -822,7 +822,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xab, 0x0a, 0x6b, 0xad, 0x0a, 0x8c, 0x6c, 0x75,
 0x7b, 0xb4, 0x05, 0x9a, 0xa9, 0xcb, 0x86, 0x92,
 0xdb, 0x75, 0x92, 0x8d, 0x96, 0x25, 0x8b, 0x81,
-0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xc2,
+0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xd2,
 0x7d, 0xda, 0xca, 0x9b, 0xd4, 0x45, 0x8a, 0xc9,
 0xad, 0x77, 0xc9, 0x4e, 0x98, 0x92, 0x0e, 0x85,
 0x26, 0x5d, 0x72, 0x2a, 0x0d, 0x93, 0x56, 0xca,
-- 
2.43.0


From e2cd748c04cd748a7b90225fac4dfcc0cbc9057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:26 +0000
Subject: [PATCH 004/107] fix: unpacking provisional satellite designations 100
 to 109 lost the leading digit

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..8ecba57 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -226,7 +226,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From 6f65b5c6a61bc1dc760e08dd9b612aa7097e629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:26 +0000
Subject: [PATCH 005/107] fix: unpack_mpc_desig( NULL, ...) crashed on extended
 provisional designations

---
 unpack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 8ecba57..c6df920 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -95,7 +95,8 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 
          if( letter >= 'I')
             letter++;
-         snprintf_err( obuff, 14, "%d %c%c%d", year + 2000, ibuff[2],
+         if( obuff)
+            snprintf_err( obuff, 14, "%d %c%c%d", year + 2000, ibuff[2],
                            letter, 620 + desig_num / 25);
          }
       }
-- 
2.43.0


From 7b5d2957af548c6c244899c0e4b456d30662c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:26 +0000
Subject: [PATCH 006/107] fix: unpacking a '$' literal name from a full record
 aborted the program

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index c6df920..9794e62 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -175,7 +175,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
       if( obuff)
-         strlcpy_err( obuff, packed + 1, obuff_size);
+         strlcpy( obuff, packed + 1, 12);
       return( OBJ_DESIG_ASTEROID_NUMBERED);     /* fix later... will be a project! */
       }
    for( i = 0; i < 12; i++, mask <<= 1)
-- 
2.43.0


From 819321687970cfff17e216bc80be177326c3d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:26 +0000
Subject: [PATCH 007/107] fix: unpacking long satellite numerals (Jupiter
 LXXXVIII) or long double designations aborted the program

---
 unpack.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 9794e62..94df22e 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -170,7 +170,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 25;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
@@ -252,7 +252,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             {
             snprintf_err( obuff, 11, "(%d)", num + 620000);
             if( *provisional_desig)
-               snprintf_append( obuff, 24, " %s", provisional_desig);
+               snprintf_append( obuff, obuff_size, " %s", provisional_desig);
             }
          return( OBJ_DESIG_ASTEROID_NUMBERED);
          }
@@ -280,7 +280,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                   /* and the provisional desig.  We'd like to decipher this */
                   /* as (for the example) "304330 = 2006 SX217".            */
                if( *provisional_desig)
-                  snprintf_append( obuff, 23, " = %s", provisional_desig);
+                  snprintf_append( obuff, obuff_size, " = %s", provisional_desig);
                }
             }
          }
-- 
2.43.0


From 9e0dbdf1e5bab286bee3beda5f66c0b7099f2fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:26 +0000
Subject: [PATCH 008/107] fix: unpack_unaligned_mpc_desig left over-long names
 unterminated

---
 unpack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 94df22e..ca99e2e 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -377,7 +377,11 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
       len++;
    if( len > 12)
       {
-      memcpy( obuff, packed, 12);
+      if( obuff)
+         {
+         memcpy( obuff, packed, 12);
+         obuff[12] = '\0';
+         }
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From ae322e4bcc1feeb79f23b290dee25c007bda9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:26 +0000
Subject: [PATCH 009/107] fix: packing absurdly large asteroid numbers wrapped
 around to small ones

---
 mpc_fmt.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..4e9b2dc 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -725,7 +725,11 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
    packed_desig[12] = '\0';
    i = 0;
    while( isdigit( obj_name[i]))
-      number = (number * 10) + (unsigned)( obj_name[i++] - '0');
+      {
+      if( number < max_number)      /* avoid overflow on absurd numbers */
+         number = (number * 10) + (unsigned)( obj_name[i] - '0');
+      i++;
+      }
    len = strlen( obj_name);
    if( in_parentheses)
       len--;
-- 
2.43.0


From 69e5aa8002e0332529044f00595c927e706cb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:27 +0000
Subject: [PATCH 010/107] fix: survey designations 9000 P-L and above were not
 packed

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 4e9b2dc..34f468e 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -761,7 +761,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       i++;
                /* If the name starts with four digits followed by an */
                /* uppercase letter,  it's a provisional designation: */
-   if( number > 999 && number < 9000 && isupper( obj_name[i]))
+   if( number > 999 && number < 10000 && isupper( obj_name[i]))
       {
       int sub_designator;
       bool mangled_designation = false;
-- 
2.43.0


From 81471509b8062b441f5716f740c8b8447866b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 011/107] fix: names that cannot be packed kept pieces of the
 failed attempt

---
 mpc_fmt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 34f468e..44d3fa2 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -892,6 +892,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
 
    if( rval == -1)       /* Undeciphered.  If 7 chars or less,  assume it's */
       {                  /* an observer-supplied desig.  8 or more chars,   */
+      memset( packed_desig, ' ', 12);
       if( comet_desig)   /* start with '$' and put in up to eleven bytes of */
          {               /* the input name. */
          obj_name -= 2;
-- 
2.43.0


From c6b822ba22485d47b18f5135b427207b581183db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 012/107] fix: cycle numbers that cannot be packed were packed
 as something else

---
 mpc_fmt.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 44d3fa2..b260de8 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -765,6 +765,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       {
       int sub_designator;
       bool mangled_designation = false;
+      const int max_cycle = 620 + 62 * 62 * 62 * 62 / 25;
 
       for( j = 0; j < 4; j++)
          {
@@ -799,6 +800,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          packed_desig[11] = '0';
 
       sub_designator = quick_atoi( obj_name + i);
+      if( strspn( obj_name + i, "0123456789") > 6)
+         mangled_designation = true;
       if( sub_designator >= 0 && number < 6200)
          {
          if( sub_designator < 620)
@@ -806,7 +809,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             packed_desig[10] = int_to_mutant_hex_char( sub_designator % 10);
             packed_desig[9] = int_to_mutant_hex_char( sub_designator / 10);
             }
-         else if( number >= 2000 && number < 2062)
+         else if( number >= 2000 && number < 2062 && sub_designator <= max_cycle
+                        && isupper( packed_desig[11]) && packed_desig[11] != 'I')
             {
             int n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
 
@@ -822,6 +826,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                encode_value_in_mutant_hex( packed_desig + 8, 4, n);
                }
             }
+         else        /* no way to pack such a large cycle number */
+            mangled_designation = true;
          while( isdigit( obj_name[i]))
             i++;
          if( comet_desig)
-- 
2.43.0


From f305be5fea801d1db05a238a8a61d880b6174e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 013/107] fix: a fragment letter overwrote the second letter of
 a comet's asteroid-style designation

---
 mpc_fmt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index b260de8..f2e75aa 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -836,6 +836,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             if( obj_name[i] == '-' && isupper( obj_name[i + 1]))
                {        /* Comet fragment such as C/2018 F4-A */
                i++;     /* pack as,  e.g.,  CK18F04a */
+               if( packed_desig[11] != '0')  /* no room for the fragment */
+                  mangled_designation = true;
                packed_desig[11] = obj_name[i++] + 'a' - 'A';
                }
             }
-- 
2.43.0


From dd3988a1c643183c7cd8447b760515cfcb5c964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 014/107] fix: trailing text after a numbered comet's fragment
 letters was silently dropped

---
 mpc_fmt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index f2e75aa..cd6d24d 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -739,12 +739,14 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       if( number > 0 && number < 1000000 && i >= 5)
          in_parentheses = true;
    if( number > 0 && number < 10000 && obj_name[i]
-                      && (!obj_name[i + 1] || obj_name[i + 1] == '-')
+                      && (!obj_name[i + 1] || (obj_name[i + 1] == '-'
+                             && isupper( obj_name[i + 2]) && (!obj_name[i + 3]
+                             || (isupper( obj_name[i + 3]) && !obj_name[i + 4]))))
                              && strchr( "PDI", obj_name[i]))
       {        /* such as '297P',  '1I',  etc. */
       snprintf( packed_desig, 5, "%04d", number);
       packed_desig[4] = obj_name[i];
-      if( obj_name[i + 1] == '-' && isupper( obj_name[i + 2]))
+      if( obj_name[i + 1] == '-')
          {           /* fragment designation */
          if( isupper( obj_name[i + 3]))  /* two-letter fragment */
             {
-- 
2.43.0


From b6b8b59868fc796f53b0a2e6b1e2a20c0753c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 015/107] fix: packing an empty name read past its end

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index cd6d24d..d4a3f3d 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -715,7 +715,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From 8614e3c93630a47284a756b5c298d56badbab38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 016/107] fix: a fragment letter overwrote the last digit of an
 extended packed designation

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d4a3f3d..c134b8a 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -838,7 +838,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             if( obj_name[i] == '-' && isupper( obj_name[i + 1]))
                {        /* Comet fragment such as C/2018 F4-A */
                i++;     /* pack as,  e.g.,  CK18F04a */
-               if( packed_desig[11] != '0')  /* no room for the fragment */
+               if( packed_desig[11] != '0' || packed_desig[5] == '_')  /* no room */
                   mangled_designation = true;
                packed_desig[11] = obj_name[i++] + 'a' - 'A';
                }
-- 
2.43.0


From cafdcbc02be7efba8d59b414f9f1e6305ee3ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 017/107] fix: an invalid extended designation left
 uninitialised text behind a number

---
 unpack.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpack.cpp b/unpack.cpp
index ca99e2e..3f97a62 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -88,7 +88,11 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
       const int desig_num = get_mutant_hex_value( ibuff + 3, 4);
 
       if( year < 0 || desig_num < 0)
+         {
+         if( obuff)
+            *obuff = '\0';
          rval = -1;
+         }
       else
          {
          char letter = 'A' + desig_num % 25;
-- 
2.43.0


From 2e384932ed2a85a08182ad4f29eb5be1a51f4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 018/107] fix: an invalid cycle character unpacked as a
 negative number behind an asteroid number

---
 unpack.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 3f97a62..8fb0498 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -106,13 +106,11 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
       }
    else if( *ibuff >= 'G' && *ibuff <= 'K' && isdigit( ibuff[1])
             && isdigit( ibuff[2]) && isupper( ibuff[3])
+            && mutant_hex_char_to_int( ibuff[4]) >= 0
             && isdigit( ibuff[5]) && (isalpha( ibuff[6]) || ibuff[6] == '0'))
       {
       int output_no = mutant_hex_char_to_int( ibuff[4]);
 
-      if( output_no == -1)
-         rval = -2;
-
       if( obuff)
          {
          obuff[0] = ((*ibuff >= 'K') ? '2' : '1');          /* millennium */
-- 
2.43.0


From 244a82987d819e9617ef18c31573279997d95ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:57 +0000
Subject: [PATCH 019/107] fix: unrecognised names starting in column 5 were
 shown with a spurious comet prefix

---
 unpack.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 8fb0498..b906552 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -319,12 +319,14 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    if( rval == OBJ_DESIG_OTHER && !memcmp( packed, "    ", 4)
             && strchr( " PCDXA", packed[4]))
       {
+      char *tptr = obuff;
+
       if( obuff && packed[4] != ' ')
          {
-         *obuff++ = packed[4];
-         *obuff++ = '/';
+         *tptr++ = packed[4];
+         *tptr++ = '/';
          }
-      if( !unpack_provisional_packed_desig( obuff, obuff_size, packed + 5))
+      if( !unpack_provisional_packed_desig( tptr, obuff_size - 2, packed + 5))
          rval = ((packed[4] == ' ' || packed[4] == 'A') ?
                                       OBJ_DESIG_ASTEROID_PROVISIONAL
                                     : OBJ_DESIG_COMET_PROVISIONAL);
-- 
2.43.0


From 45d5563f0ebee66e1893672595c4d9248b3a7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 020/107] fix: ADES sigmas (and other pieces) of one
 observation leaked into the next

---
 ades2mpc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 06ec766..60268bd 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -933,6 +933,13 @@ static void setup_observation( ades2mpc_t *cptr)
    cptr->id_set = 0;
    cptr->spacecraft_center = 399;      /* default to geocentric */
    cptr->full_t2k = NOT_A_VALID_TIME;
+   cptr->rms_ra[0] = cptr->rms_dec[0] = cptr->corr[0] = '\0';
+   cptr->rms_mag[0] = cptr->rms_time[0] = '\0';
+   cptr->full_ra[0] = cptr->full_dec[0] = cptr->full_mag[0] = '\0';
+   cptr->trk_sub[0] = cptr->obs_id[0] = cptr->trk_id[0] = '\0';
+   cptr->passband[0] = cptr->passband[1] = '\0';
+   cptr->notes[0] = cptr->program_code[0] = '\0';
+   memset( cptr->spacecraft_vel, 0, sizeof( cptr->spacecraft_vel));
 }
 
 /* The following checks to see if the input is astrometry with "Dave
-- 
2.43.0


From 0802837b05cdcdc43695dd7c9d3c3f44682315c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 021/107] fix: an ADES RA sigma without a dec sigma was written
 with a dangling 'x'

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 60268bd..35b6557 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -436,7 +436,7 @@ static int get_a_line( char *obuff, const size_t obuff_size, ades2mpc_t *cptr)
    if (cptr->rms_ra[0])
       {
       snprintf_err( obuff, obuff_size, "COM Sigmas %s", cptr->rms_ra);
-      if( strcmp( cptr->rms_ra, cptr->rms_dec))
+      if( cptr->rms_dec[0] && strcmp( cptr->rms_ra, cptr->rms_dec))
          {
          snprintf_append( obuff, obuff_size, "x%s", cptr->rms_dec);
          if( atof( cptr->corr))
-- 
2.43.0


From 9fa67a93416395f2c1c6ab709bd93c44c26804c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 022/107] fix: ADES times with more than millisecond digits
 overwrote the RA columns

---
 ades2mpc.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 35b6557..44af5f1 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -376,25 +376,34 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
 
 static inline size_t move_fits_time( char *optr, const char *iptr)
 {
-   char *optr0 = optr;
+   size_t n_out = 0;
+   const size_t max_out = 17;       /* columns available for the time */
 
    if( iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
                && iptr[13] == ':')
       {
       const int century = iptr[0] * 10 + iptr[1] - '0' * 11;
 
-      *optr++ = int_to_mutant_hex_char( century);
+      optr[n_out++] = int_to_mutant_hex_char( century);
       iptr += 2;
       while( *iptr && *iptr != 'Z')
          {
+         char c = '\0';
+
          if( *iptr >= '0' && *iptr <= '9')
-            *optr++ = *iptr;
+            c = *iptr;
          else if( *iptr == 'T')
-            *optr++ = ':';
+            c = ':';
+         if( c)
+            {
+            if( n_out < max_out)
+               optr[n_out] = c;
+            n_out++;
+            }
          iptr++;
          }
       }
-   return( optr - optr0);
+   return( n_out);
 }
 
 static inline int place_value( char *optr, const char *iptr, const size_t ilen,
-- 
2.43.0


From 381d8a8792fc825a888457a3d6e06923caf10cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 023/107] fix: long ADES spacecraft coordinates overwrote the
 next coordinate's columns

---
 ades2mpc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 44af5f1..6d4b627 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -763,9 +763,14 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                }
             if( decimal_loc)
                {
+               int n_to_copy = (nlen > 11 ? 10 : nlen - 1);
+               int room;
+
                decimal_loc -= (int)(tptr2 - name);
-               memcpy( &cptr->line2[decimal_loc + 1], name + 1,
-                                           (nlen > 11 ? 10 : nlen - 1));
+               room = sign_loc + 11 - decimal_loc;
+               if( n_to_copy > room)
+                  n_to_copy = room;
+               memcpy( &cptr->line2[decimal_loc + 1], name + 1, n_to_copy);
                }
             }
          else               /* roving observer */
-- 
2.43.0


From 0b347966df82fcf3afe5c2947aad66e7ba70a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 024/107] fix: deeply nested or unbalanced ADES tags overran
 the tag stack

---
 ades2mpc.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 6d4b627..34a3252 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1197,13 +1197,17 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
                {
                if( tptr[1] == '/')
                   {
-                  cptr->depth--;
-                  if( cptr->depth < 0 || cptr->tags[cptr->depth] != tag_idx)
+                  if( cptr->depth)
+                     cptr->depth--;
+                  else
+                     rval = ADES_CLOSING_UNOPENED_TAG;
+                  if( cptr->tags[cptr->depth] != tag_idx)
                      rval = ADES_CLOSING_UNOPENED_TAG;
                   }
                else
                   {
-                  cptr->tags[cptr->depth++] = tag_idx;
+                  if( cptr->depth < MAX_DEPTH)
+                     cptr->tags[cptr->depth++] = tag_idx;
                   if( cptr->depth == MAX_DEPTH)
                      rval = ADES_DEPTH_MAX;
                   }
-- 
2.43.0


From e78a85eb4dc39a7abd8e69dd53572ea3bad332d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 025/107] fix: a mis-nested </optical> was not reported as an
 error

---
 ades2mpc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 34a3252..1ae3f5a 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1213,10 +1213,10 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
                   }
                if( tag_idx == ADES_optical)
                   {
-                  if( tptr[1] == '/')
-                     cptr->getting_lines = rval = 1;
-                  else
+                  if( tptr[1] != '/')
                      setup_observation( cptr);
+                  else if( rval >= 0)
+                     cptr->getting_lines = rval = 1;
                   }
                }
             }
@@ -1237,7 +1237,7 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
          return rval;
       tptr = skip_whitespace( tptr);
       }
-   if( rval)
+   if( rval > 0)
       get_a_line( obuff, obuff_size, cptr);
    if( orig_obuff)
       strlcpy_err( orig_obuff, temp_obuff, obuff_size);
-- 
2.43.0


From 772bac87e8047c62f9ed4c24f6745a4500d46a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 026/107] fix: an ADES error (such as a tag split over two
 lines) repeated forever in fgets_with_ades_xlation

---
 ades2mpc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 1ae3f5a..be9779d 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1282,8 +1282,10 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
    ades2mpc_t *cptr = (ades2mpc_t *)ades_context;
    int prev_rval = cptr->prev_rval;
 
-   if( prev_rval)
+   if( prev_rval > 0)
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
+   else           /* errors are reported once;  go on to the next line */
+      prev_rval = 0;
    while( !prev_rval && fgets_trimmed( buff, (int)len, ifile))
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
    while( *buff && *buff != 10 && *buff != 13)
-- 
2.43.0


From d2f817e65cdba0a4f3c23d38be82692d2a2977c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:51 +0000
Subject: [PATCH 027/107] fix: ADES times without a trailing 'Z' picked up
 digits from the fields after them

---
 ades2mpc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index be9779d..e88058b 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -374,8 +374,9 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
       }
 }
 
-static inline size_t move_fits_time( char *optr, const char *iptr)
+static inline size_t move_fits_time( char *optr, const char *iptr, const size_t ilen)
 {
+   const char *end_ptr = iptr + ilen;
    size_t n_out = 0;
    const size_t max_out = 17;       /* columns available for the time */
 
@@ -386,7 +387,7 @@ static inline size_t move_fits_time( char *optr, const char *iptr)
 
       optr[n_out++] = int_to_mutant_hex_char( century);
       iptr += 2;
-      while( *iptr && *iptr != 'Z')
+      while( iptr < end_ptr && *iptr && *iptr != 'Z')
          {
          char c = '\0';
 
@@ -614,7 +615,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          {
          const bool too_far_in_future = (atoi( tptr) > 2099);
 
-         if( move_fits_time( cptr->line + 15, tptr) > 17 || too_far_in_future)
+         if( move_fits_time( cptr->line + 15, tptr, len) > 17 || too_far_in_future)
             {
             char *zptr = strchr( name, 'Z');
 
-- 
2.43.0


From 782dac001cafa53589fc7e267ebc803fe8b736e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:32 +0000
Subject: [PATCH 028/107] fix: some malformed time offsets ('2008-11-07 5 d')
 put get_time_from_string() into an infinite loop

---
 get_time.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..194509f 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -151,8 +151,10 @@ static inline long double collect_time_offset( char *istr)
             len--;
          if( len >= 0)         /* we found something... */
             if( sscanf( istr + len, "%Lf %c%n", &rval, &unused_char,
-                                    &bytes_scanned) == 2)
-               if( !istr[len + bytes_scanned])
+                                    &bytes_scanned) != 2
+                        || istr[len + bytes_scanned])
+               rval = 0.;        /* not a time offset after all */
+            else
                   {
                   for( i = 0; symbols[i]; i++)
                      if( ending_char == symbols[i])
-- 
2.43.0


From 06216f928551be9e18d4a14fefcdc0cc6c67f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:32 +0000
Subject: [PATCH 029/107] fix: text of 78 bytes or so overran
 get_time_from_string()'s buffer by one byte

---
 get_time.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 194509f..4341346 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -414,7 +414,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
    long year, int_rval;
    long double sec, dday;
    long double rval = -J2000, offset = 0., tval;
-   char buff[80];
+   char buff[82];
    char symbol = 0;
    char *str = buff;
    const long double jan_1_1970 = 2440587.5;      /* starting point for UNIX time */
@@ -423,7 +423,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
       *is_ut = 0;
    while( *time_str == ' ')         /* skip leading spaces */
       time_str++;
-   if( strlen( time_str) >= sizeof( buff) || !*time_str)
+   if( strlen( time_str) >= 80 || !*time_str)
       {
       if( is_ut)
          *is_ut = -3;
@@ -434,7 +434,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
              /* 'Q' is an exception to avoid '1q' becoming '1 q'.         */
    *str = (char)tolower( *time_str++);
    i = 1;
-   while( (size_t)i < sizeof( buff) - 1 && *time_str)
+   while( (size_t)i < sizeof( buff) - 2 && *time_str)
       {
       if( (isalpha( *time_str) && isdigit( time_str[-1]))
                          || (isdigit( *time_str) && isalpha( time_str[-1])))
-- 
2.43.0


From 315135897b20d1b84ea9c57154c93d598f52a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:32 +0000
Subject: [PATCH 030/107] fix: dates such as '3.5 jan 12' (decimal day, named
 month) ran into an assert in get_time_from_string()

---
 get_time.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 4341346..dece7e8 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -768,6 +768,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                   else   /* if month is 1st or last, year must be last/1st */
                      year_found = 4 - month_found;
                   }
+               else        /* both day and month were found: */
+                  year_found = 6 - month_found - day_found;
                }
             else        /* year_found... */
                if( !month_found && !day_found)  /* ...but nothing else */
-- 
2.43.0


From e44c73a61d8b1ee95745370acd48bbb54d846ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:32 +0000
Subject: [PATCH 031/107] fix: dates with a decimal year ('2008.5 3 4') ran
 into an assert in get_time_from_string()

---
 get_time.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index dece7e8..34daabb 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -699,6 +699,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
             else if( ivals[i] > 32.)
                if( !year_found || ivals[i] > ivals[year_found - 1])
                   year_found = i + 1;
+         if( day_found == year_found)     /* it can't be both */
+            day_found = 0;
          if( year_found || n_fields_found == 2)
             for( i = 0; i < n_fields_found; i++)
                if( ivals[i] > (long double)max_month + .0001 && ivals[i] < 32.
-- 
2.43.0


From 39df0ca4a9b47be84b9681e806aee08b6cc5e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:02 +0000
Subject: [PATCH 032/107] fix: dates with impossible months were looked up past
 the end of the month table

---
 date.cpp     | 2 +-
 get_time.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 6cc74df..87c201e 100644
--- a/date.cpp
+++ b/date.cpp
@@ -833,6 +833,7 @@ void DLL_FUNC day_to_dmy( const long jd, int DLLPTR *day,
 
    *year = approx_year( jd, calendar_to_use);
    *day = -1;           /* to signal an error */
+   *month = -1;
    do
       {
       if( get_calendar_data( *year, year_ends, month_data, calendar_to_use))
@@ -845,7 +846,6 @@ void DLL_FUNC day_to_dmy( const long jd, int DLLPTR *day,
    while( year_ends[0] > jd || year_ends[1] <= jd);
 
    curr_jd = year_ends[0];
-   *month = -1;
    for( int i = 0; i < N_MONTHS; i++)
       {
       *day = (int)( jd - curr_jd);
diff --git a/get_time.cpp b/get_time.cpp
index 34daabb..7596731 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -885,6 +885,12 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
 //       break;
       }
 
+   if( month > 13)
+      {
+      if( is_ut)
+         *is_ut = -1;
+      return( initial_t2k);
+      }
    if( is_bc)
       year = 1 - year;
    iday = (int)dday;
-- 
2.43.0


From d084a595974e54af4945cce79da5530b19b249a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:02 +0000
Subject: [PATCH 033/107] fix: named days of the week before 2000 were taken to
 be the wrong days

---
 get_time.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 7596731..ed47abd 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -816,7 +816,8 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               ival -= (int)( floorl( initial_t2k + 6.5)
+                              - 7. * floorl( floorl( initial_t2k + 6.5) / 7.));
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From 1fb61d3139bf93eab5b74e3128244aa448252d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:02 +0000
Subject: [PATCH 034/107] fix: full_ctime() crashed on thirteenth months
 without a name and on days outside a calendar's range

---
 miscell.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..4b46959 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -386,10 +386,14 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       char year_str[20];
       char day_str[15];
 
-      if( format & FULL_CTIME_MONTHS_AS_DIGITS)
+      const char *month_name = NULL;
+
+      if( !(format & FULL_CTIME_MONTHS_AS_DIGITS) && month > 0 && month < 14)
+         month_name = set_month_name( month, NULL);
+      if( !month_name)
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
       else
-         strlcpy_err( month_str, set_month_name( month, NULL), sizeof( month_str));
+         strlcpy_err( month_str, month_name, sizeof( month_str));
 
       if( format & FULL_CTIME_TWO_DIGIT_YEAR)
          snprintf_err( year_str, sizeof( year_str), "%02d", abs( (int)year % 100));
-- 
2.43.0


From 6e54ba4cfe9ac04e630dd20ad56910c1ee32f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 035/107] fix: dates with doubled spaces ('Mar  3 2008', '44 BC
 mar 15') were misread by get_time_from_string()

---
 get_time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index ed47abd..c0971b4 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -224,7 +224,7 @@ static char *remove_substring( char *timestr, const char *substring)
 
 static int check_for_bc( char *timestr)
 {
-   char *text_loc;
+   char *text_loc, *dptr;
 
    remove_substring( timestr, "ad");     /* Just grab the 'ad' or 'a.d.';  */
    remove_substring( timestr, "a.d.");   /* they have no actual effect     */
@@ -233,6 +233,8 @@ static int check_for_bc( char *timestr)
       text_loc = remove_substring( timestr, "b.c.");
 
    remove_leading_and_trailing_spaces( timestr);
+   for( dptr = timestr; (dptr = strstr( dptr, "  ")) != NULL; )
+      memmove( dptr, dptr + 1, strlen( dptr));     /* runs become one space */
    return( text_loc ? 1 : 0);
 }
 
-- 
2.43.0


From 95ed24948a3b39b2a9b84b095db4c5b5d9cbca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 036/107] fix: FULL_CTIME_ROUNDING gave wrong Julian days and
 years, and years past 9999 lost digits

---
 miscell.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/miscell.cpp b/miscell.cpp
index 4b46959..7ae83db 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -322,7 +322,15 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
    for( i = precision; i; i--)
       add_on /= 10.;
    if( format & FULL_CTIME_ROUNDING)
-      add_on *= 0.5 / (double)units;
+      {
+      if( output_format == FULL_CTIME_FORMAT_YEAR)
+         add_on *= 0.5 * 365.25;
+      else if( output_format == FULL_CTIME_FORMAT_JD
+                     || output_format == FULL_CTIME_FORMAT_MJD)
+         add_on = 0.;            /* snprintf() will round these */
+      else
+         add_on *= 0.5 / (double)units;
+      }
    else
       add_on *= 0.05 / seconds_per_day;
    t2k += add_on;
@@ -336,9 +344,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
 #else
       snprintf_err( tbuff, sizeof( tbuff), "%21.16Lf", t2k / 365.25 + 2000.);
 #endif
-      tbuff[precision + 5] = '\0';
-      if( !precision)
-         tbuff[4] = '\0';
+      strchr( tbuff, '.')[precision ? precision + 1 : 0] = '\0';
       strlcpy_err( buff, tbuff, max_buff_size);
       if( leading_zeroes)
          while( *buff == ' ')
-- 
2.43.0


From 65ff0aa325af4f5210aba96ab0f4061472660bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 037/107] fix: full_ctime() overran its day buffer when twelve
 or more decimals of a day were asked for

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 7ae83db..d49bd1a 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -390,7 +390,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char month_str[25];
       char year_str[20];
-      char day_str[15];
+      char day_str[25];
 
       const char *month_name = NULL;
 
-- 
2.43.0


From 7877fdfbcd0bb4b7403fdf7156dd7b842c93c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:23 +0000
Subject: [PATCH 038/107] fix: the thirteenth month of the French revolutionary
 calendar was read as a day by get_time_from_string()

---
 get_time.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index c0971b4..3e6d787 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -405,10 +405,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
          const char *time_str, const int time_format, int *is_ut)
 {
    const int calendar = (time_format & CALENDAR_MASK);
-            /* Certain solar-lunar calendars can have 13 months in a year: */
+            /* Certain solar-lunar calendars can have 13 months in a year,  */
+            /* and the complementary days of the French one are a 13th:    */
    const int max_month =
-             ((calendar == CALENDAR_HEBREW || calendar == CALENDAR_CHINESE)
-                    ? 13 : 12);
+             ((calendar == CALENDAR_HEBREW || calendar == CALENDAR_CHINESE
+                     || calendar == CALENDAR_REVOLUTIONARY) ? 13 : 12);
    int iday, month, hour, minute, n_bytes;
    int ival, colon_found = 0, is_bc = 0;
    unsigned i;
-- 
2.43.0


From 097ff6ea88e28622ab97fc78b3fb2bf4b3fe3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 039/107] fix: output_angle_to_buff() showed 'ddd.' RAs (format
 200) as hours, and left out the decimal point of formats 100 and 200

---
 mpc_fmt2.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index dd40a5d..afd2248 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -51,14 +51,16 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
    if( (precision >= 100 && precision <= 116) /* decimal quantity, dd.dd... */
         || ( precision >= 200 && precision <= 215)) /* decimal ddd.dd... */
       {
-      const int two_digits = (precision <= 200);
+      const int two_digits = (precision < 200);
 
       n_digits_to_show = precision % 100;
       power_mul = ten_to_the_nth( n_digits_to_show);
       fraction = (int64_t)( angle * (two_digits ? 1. : 15.) * (double)power_mul + .5);
 
-      snprintf( obuff, 4, (two_digits ? "%02u" : "%03u"),
-                  (int)( fraction / power_mul));
+      snprintf( obuff, 5, (n_digits_to_show ?
+                              (two_digits ? "%02u" : "%03u") :
+                              (two_digits ? "%02u." : "%03u.")),
+                  (unsigned)( fraction / power_mul));
       fraction %= power_mul;
       }
    else
-- 
2.43.0


From 4a69c17cfd0bef60f2548768bd94e325d7a7aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 040/107] fix: packed RAs and decs given to a tenth of a second
 (format 307) could not be read

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index c134b8a..9b65ea1 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -359,7 +359,7 @@ static double get_ra_dec( const char *ibuff, int *format, double *precision)
    rval = quick_atof( buff);
    while( isdigit( buff[i]))
       i++;
-   if( i > 7)        /* "packed" highly precise RA/decs described above */
+   if( i > 6)        /* "packed" highly precise RA/decs described above */
       {
       unsigned tval;
       double factor = 1. / 3600.;
-- 
2.43.0


From 3f9b0892294aa01c4c60601a02abffc9c4014dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 041/107] fix: long catalogue names overran buffers in
 net_name_to_byte_code(), and 'Gaiadr1' was not recognized

---
 mpc_fmt.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 9b65ea1..500d249 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -545,17 +545,21 @@ NET Gaia1
 upper/lower case,  and dropping the 'DR' for Gaia,  we've almost
 assuredly got the right catalog.   */
 
-static void reduce_net_name( char *obuff, const char *ibuff)
+static void reduce_net_name( char *obuff, size_t osize, const char *ibuff)
 {
-   while( *ibuff)
+   while( *ibuff && osize > 1)
       if( *ibuff == '-' || *ibuff == ' ')
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
          ibuff += 2;
-      else if( ibuff[0] == 'D' && ibuff[1] == 'R')
+      else if( toupper( (unsigned char)ibuff[0]) == 'D'
+                     && toupper( (unsigned char)ibuff[1]) == 'R')
          ibuff += 2;
       else
-         *obuff++ = toupper( *ibuff++);
+         {
+         *obuff++ = (char)toupper( (unsigned char)*ibuff++);
+         osize--;
+         }
    *obuff = '\0';
 }
 
@@ -564,10 +568,10 @@ char net_name_to_byte_code( const char *net_name)
    char net1[80], net2[80], rval = 0;
    size_t i;
 
-   reduce_net_name( net1, net_name);
+   reduce_net_name( net1, sizeof( net1), net_name);
    for( i = 0; net_codes[i]; i++)
       {
-      reduce_net_name( net2, net_codes[i] + 1);
+      reduce_net_name( net2, sizeof( net2), net_codes[i] + 1);
       if( !strcmp( net1, net2))
          rval = net_codes[i][0];
       }
-- 
2.43.0


From 3a962059e1d5cac18f3f5fd600429dfc5909da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 042/107] fix: quick_strtod() overflowed on numbers with more
 than nine digits before or after the decimal point

---
 mpc_code.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..8f2f4cf 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -217,7 +217,7 @@ robust solution.        */
 double quick_strtod( const char *ibuff, const char **endptr)
 {
    bool is_negative = false, got_a_digit = false;
-   int integer_part = 0;
+   double integer_part = 0.;
    double rval;
 
    if( endptr)
@@ -234,12 +234,12 @@ double quick_strtod( const char *ibuff, const char **endptr)
    if( *ibuff >= '0' && *ibuff <= '9')
       got_a_digit = true;
    while( *ibuff >= '0' && *ibuff <= '9')
-      integer_part = integer_part * 10 + (*ibuff++ - '0');
+      integer_part = integer_part * 10. + (double)(*ibuff++ - '0');
    if( *ibuff != '.')
-      rval = (double)integer_part;
+      rval = integer_part;
    else
       {
-      int frac_part = 0, divisor = 1;
+      int64_t frac_part = 0, divisor = 1;
 
       ibuff++;
       if( *ibuff < '0' || *ibuff > '9')
@@ -247,10 +247,14 @@ double quick_strtod( const char *ibuff, const char **endptr)
             return( 0.);
       while( *ibuff >= '0' && *ibuff <= '9')
          {
-         frac_part = frac_part * 10 + (*ibuff++ - '0');
-         divisor *= 10;
+         if( divisor < (int64_t)1000000000 * 100000000)  /* 17 digits will do */
+            {
+            frac_part = frac_part * 10 + (*ibuff - '0');
+            divisor *= 10;
+            }
+         ibuff++;
          }
-      rval = (double)integer_part + (double)frac_part / (double)divisor;
+      rval = integer_part + (double)frac_part / (double)divisor;
       }
    if( endptr)
       *endptr = ibuff;
-- 
2.43.0


From ca2ce9a6fc63e5aa873d769fb5894275469191d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:17 +0000
Subject: [PATCH 043/107] fix: dates of 15-31 October 1582 in 80-column records
 were ten days late

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 500d249..6d47dbc 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -267,8 +267,12 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
       }
 
    if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
-      rval += (double)dmy_to_day( 0, month, year,
-                                    CALENDAR_JULIAN_GREGORIAN) - .5;
+      {           /* pass the day,  so we get the right calendar for it */
+      const int day = (int)rval;
+
+      rval += (double)( dmy_to_day( day, month, year,
+                                    CALENDAR_JULIAN_GREGORIAN) - day) - .5;
+      }
 
              /* Radar obs are always given to the nearest UTC second. So  */
              /* some rounding is usually required with MPC microday data. */
-- 
2.43.0


From 2171bf744dda07d83201b4aa4ffa915a40dc3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 044/107] fix: the minimizer could stall, or ask for NaN or an
 already known point, on flat functions

---
 brentmin.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brentmin.cpp b/brentmin.cpp
index f456e31..1e15326 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -213,6 +213,10 @@ double brent_min_next( brent_min_t *b)
             rval = b->xmax - tol;
          }
       if( b->n_iterations > 30 && (b->n_iterations & 1))
+         b->step_type = STEP_TYPE_GOLDEN;
+            /* Flat functions can leave us with no minimum (NaN),  or one   */
+            /* at a point we already have :                                 */
+      if( !(rval > b->xmin && rval < b->xmax) || rval == b->x[0])
          b->step_type = STEP_TYPE_GOLDEN;
       }
    if( b->step_type == STEP_TYPE_GOLDEN)
@@ -235,7 +239,11 @@ int brent_min_add( brent_min_t *b, const double next_y)
       else
          b->xmin = b->x[0];
       if( b->step_type == STEP_TYPE_GOLDEN)
+         {
          b->gold_ratio = (1. + b->gold_ratio) / 2.;
+         if( b->gold_ratio > .75)      /* don't let the steps dwindle away */
+            b->gold_ratio = .75;
+         }
       }
    else                       /* no new minimum,  but the brackets can */
       {                       /* still be moved in */
-- 
2.43.0


From ee2f85efba55338e93a8cde9f11ebcb345f8fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 045/107] fix: cubic_min() failed an assertion when points got
 too close together

---
 brentmin.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brentmin.cpp b/brentmin.cpp
index 1e15326..7a4472f 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -128,7 +128,11 @@ static double cubic_min( const double *x, const double *y, int *err)
    double k12, k13, a, b, c, discr, rval;
 
    *err = 0;
-   assert( k12_denom && k13_denom && x2 != x3);
+   if( !k12_denom || !k13_denom || x2 == x3)    /* points too close together */
+      {
+      *err = 1;
+      return( 0);
+      }
    k12 = (y1 * x2 - y2 * x1) / k12_denom;
    k13 = (y1 * x3 - y3 * x1) / k13_denom;
    a = (k12 - k13) / (x2 - x3);
-- 
2.43.0


From c1d5cdbbc62143fa8c3d2dd68861e4ddab79d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 046/107] fix: calc_classical_elements() didn't flatten the
 eccentricity vector into the orbit plane: nearly circular orbits came out
 tilted

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..aa3484d 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -138,7 +138,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
       e[i] = e[i] / elem->gm - r[i] / dist;
-   tval = dot_product( e, h) / h0;     /* "flatten" e vector into the rv */
+   tval = dot_product( e, h) / (h0 * h0);   /* "flatten" e vector into the rv */
    for( i = 0; i < 3; i++)             /* plane to avoid roundoff; see   */
       e[i] -= h[i] * tval;             /* above comments                 */
    ecc2 = dot_product( e, e);
-- 
2.43.0


From 8f001f32403688c456ab84217c7355fcca6920b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 047/107] fix: calc_classical_elements() gave the wrong
 argument of periapsis for orbits in the xy plane with periapsis below the x
 axis

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index aa3484d..1f7b5dd 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -209,7 +209,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          if( cos_arg_per < 0.)
             elem->arg_per = PI - elem->arg_per;
          }
-      if( e[2] < 0.)
+      if( n0 ? e[2] < 0. : e[1] * h[2] < 0.)
          elem->arg_per = PI + PI - elem->arg_per;
       }
 
-- 
2.43.0


From 0904b175bf4657a57cf82432e11f538187681877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 048/107] fix: orbits with an inclination near 90 degrees lost
 precision in setup_orbit_vectors()

---
 astfuncs.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index cde9162..0f8aa80 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -93,24 +93,19 @@ to the direction of perihelion. */
 void setup_orbit_vectors( ELEMENTS DLLPTR *e)
 {
    const double sin_incl = sin( e->incl), cos_incl = cos( e->incl);
+   const double sin_argper = sin( e->arg_per), cos_argper = cos( e->arg_per);
+   const double sin_node = sin( e->asc_node), cos_node = cos( e->asc_node);
    double FAR *vec;
-   double vec_len;
    double up[3];
-   unsigned i;
 
    e->minor_to_major = sqrt( fabs( 1. - e->ecc * e->ecc));
    e->lon_per = e->asc_node + atan2( sin( e->arg_per) * cos_incl,
                                        cos( e->arg_per));
    vec = e->perih_vec;
 
-   vec[0] = cos( e->lon_per) * cos_incl;
-   vec[1] = sin( e->lon_per) * cos_incl;
-   vec[2] = sin_incl * sin( e->lon_per - e->asc_node);
-   vec_len = sqrt( cos_incl * cos_incl + vec[2] * vec[2]);
-   if( cos_incl < 0.)      /* for retrograde cases, make sure */
-      vec_len *= -1.;      /* 'vec' has correct orientation   */
-   for( i = 0; i < 3; i++)
-      vec[i] /= vec_len;
+   vec[0] = cos_node * cos_argper - sin_node * sin_argper * cos_incl;
+   vec[1] = sin_node * cos_argper + cos_node * sin_argper * cos_incl;
+   vec[2] = sin_argper * sin_incl;
             /* 'up' is a vector perpendicular to the plane of the orbit */
    up[0] =  sin( e->asc_node) * sin_incl;
    up[1] = -cos( e->asc_node) * sin_incl;
-- 
2.43.0


From aff1cc4fe2de560fdc0963be38aaa1cc54c2e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 049/107] fix: positions in nearly parabolic orbits lost
 precision

---
 astfuncs.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 0f8aa80..2e196bf 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -288,18 +288,20 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
       double ecc_anom;
 
       ecc_anom = kepler( elem->ecc, elem->mean_anomaly);
+                     /* half-angle formulae;  no precision lost when e=~1 */
+      x = sqrt( fabs( 1. - elem->ecc));
+      y = sqrt( 1. + elem->ecc);
       if( elem->ecc > 1.)     /* hyperbolic case */
          {
-         x = (elem->ecc - cosh( ecc_anom));
-         y = sinh( ecc_anom);
+         x *= cosh( ecc_anom * .5);
+         y *= sinh( ecc_anom * .5);
          }
       else           /* elliptical case */
          {
-         x = (cos( ecc_anom) - elem->ecc);
-         y =  sin( ecc_anom);
+         x *= cos( ecc_anom * .5);
+         y *= sin( ecc_anom * .5);
          }
-      y *= elem->minor_to_major;
-      true_anom = atan2( y, x);
+      true_anom = 2. * atan2( y, x);
       }
 
    r0 = elem->q * (1. + elem->ecc);
-- 
2.43.0


From 82cf0fcf3a528d969ee9fae8bb9beac02dd54ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 050/107] fix: positions in parabolic orbits lost precision
 well before perihelion

---
 astfuncs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 2e196bf..a730095 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -278,10 +278,12 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
 
    if( elem->ecc == 1.)    /* parabolic */
       {
-      double g = elem->w0 * t * .5;
+      const double g = fabs( elem->w0 * t * .5);
 
       y = CUBE_ROOT( g + sqrt( g * g + 1.));
       true_anom = 2. * atan( y - 1. / y);
+      if( t < 0.)
+         true_anom = -true_anom;
       }
    else           /* got the mean anomaly;  compute eccentric,  then true */
       {
-- 
2.43.0


From b87c8528212bfa300925bdaeaf70fe08aac5ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 051/107] fix: perihelion times of nearly parabolic orbits lost
 precision in calc_classical_elements()

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 1f7b5dd..a9539bc 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -144,8 +144,8 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    ecc2 = dot_product( e, e);
    if( fabs( ecc2 - 1.) < 1.e-14)      /* avoid roundoff issues w/nearly */
       ecc2 = 1.;                       /* parabolic orbits               */
-   elem->minor_to_major = sqrt( fabs( 1. - ecc2));
    ecc = elem->ecc = sqrt( ecc2);
+   elem->minor_to_major = sqrt( fabs( (1. - ecc) * (1. + ecc)));
 
    if( !ecc)                     /* for purely circular orbits,  e is */
       {                          /* arbitrary in the orbit plane; choose */
-- 
2.43.0


From 8f561325db5d9fe2ed2d6ad7c2364f4927939402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:05 +0000
Subject: [PATCH 052/107] fix: kepler() lost precision for nearly parabolic
 orbits with small anomalies

---
 astfuncs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index a730095..bd59e5d 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -157,7 +157,8 @@ E - e sin( E) = E - e( E - E^3/3! + E^5/5! - ...)
 quite rarely.  (I only encountered the problem because I had orbits
 that were supposed to be 'pure parabolic',  but due to roundoff,
 they had e = 1+/- epsilon,  with epsilon _very_ small.)  So 'near_parabolic'
-is only called if we've gone seven iterations without converging. */
+is only called for small anomalies,  or if we've gone seven iterations
+without converging. */
 
 static double near_parabolic( const double ecc_anom, const double e)
 {
@@ -166,7 +167,7 @@ static double near_parabolic( const double ecc_anom, const double e)
    double rval = (1. - e) * ecc_anom - term;
    unsigned n = 4;
 
-   while( fabs( term) > 1e-15)
+   while( fabs( term) > 1e-17 * fabs( rval))
       {
       term *= anom2 / (double)(n * (n + 1));
       rval -= term;
@@ -249,7 +250,7 @@ double kepler( const double ecc, double mean_anom)
    if( ecc < 1.)
       while( fabs( delta_curr) > thresh)
          {
-         if( n_iter++ > MAX_ITERATIONS)
+         if( n_iter++ > MAX_ITERATIONS || curr < .3)
             err = near_parabolic( curr, ecc) - mean_anom;
          else
             err = curr - ecc * sin( curr) - mean_anom;
@@ -260,7 +261,7 @@ double kepler( const double ecc, double mean_anom)
    else
       while( fabs( delta_curr) > thresh)
          {
-         if( n_iter++ > MAX_ITERATIONS && ecc < 1.01)
+         if( (n_iter++ > MAX_ITERATIONS || curr < .3) && ecc < 1.01)
             err = -near_parabolic( curr, ecc) - mean_anom;
          else
             err = ecc * sinh( curr) - curr - mean_anom;
-- 
2.43.0


From efe8c415192fb243de2493ba12fb9b008191f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 053/107] fix: tdb_minus_utc() added TDB-TDT in days to TD-UTC
 in seconds

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..96f6570 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -461,5 +461,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From 958e4b834a10607a459f8344dc2d9e9d90beff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 054/107] fix: a Delta-T definition with trailing blanks
 repeated its last coefficient and was read past its end

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 96f6570..b189ca1 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -138,7 +138,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             *delta_t = 0.;
             rval = 0;
             while( tptr[-1] != ';' && *tptr
-                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read))
+                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read) == 1)
                {
                *delta_t += power * coeff;
                power *= x;
-- 
2.43.0


From eb6cce30142789fdb47f9cf8266f3db27cfe8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 055/107] fix: load_earth_orientation_params() returned the day
 before the last if predictions filled the file

---
 eop_prec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index fae169f..63ec1af 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -170,8 +170,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-         else                            /* get MJD for preceding day */
-            rval = atoi( buff + 7) - 1;
+         else                            /* get MJD for last day read */
+            rval = (int)( eop_jd0 - 2400000.499) + eop_usable - 1;
          }
       if( ifile)
          fclose( ifile);
-- 
2.43.0


From 1587a44b3cc4f30f8ba1c93a9544a1656a3c7f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 056/107] fix: setup_ecliptic_precession() multiplied its two
 matrices in the wrong order, unless one epoch was 2000

---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..a9a26b8 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From beb13eb4999867e9266dd35cdde789a2012138f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 057/107] fix: azimuths and hour angles were wrong at the poles
 and lost half their digits near the meridian

---
 alt_az.cpp | 47 +++++++++++------------------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 10078de..76ca07c 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -31,17 +31,12 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 static void ra_dec_to_alt_az( const double hr_ang, const double dec,
         double DLLPTR *alt, double DLLPTR *az, const double lat)
 {
-   double temp, cos_lat = cos( lat);
+   const double x = cos( hr_ang) * cos( dec) * sin( lat) - sin( dec) * cos( lat);
+   const double y = -sin( hr_ang) * cos( dec);
+   const double z = sin( lat) * sin( dec) + cos( lat) * cos( dec) * cos( hr_ang);
 
-   *alt = asine( sin( lat) * sin( dec) + cos_lat * cos( dec) * cos( hr_ang));
-   if( cos_lat < .00001)         /* polar case */
-      *az = hr_ang;
-   else
-      {
-      temp = (sin( dec) - sin( *alt) * sin( lat)) / (cos( *alt) * cos_lat);
-      temp = PI - acose( temp);
-      *az = ((sin( hr_ang) < 0.) ? temp : -temp);
-      }
+   *alt = atan2( z, sqrt( x * x + y * y));
+   *az = atan2( y, x);
 }
 
 /* Normally,  the following will take the J2000 RA/dec and compute
@@ -80,36 +75,16 @@ void DLL_FUNC full_ra_dec_to_alt_az( const DPT DLLPTR *ra_dec,
       *loc_epoch = loc_at_epoch;
 }
 
-static void alt_az_to_ra_dec( double alt, double az,
+static void alt_az_to_ra_dec( const double alt, const double az,
                          double DLLPTR *hr_ang,
                          double DLLPTR *dec, const double lat)
 {
-   double temp, sin_dec, cos_lat = cos( lat);
+   const double x = sin( alt) * cos( lat) - cos( alt) * cos( az) * sin( lat);
+   const double y = cos( alt) * sin( az);
+   const double z = sin( lat) * sin( alt) + cos( lat) * cos( alt) * cos( az);
 
-   if( alt > PI / 2.)
-      {
-      alt = PI - alt;
-      az += PI;
-      }
-   if( alt < -PI / 2.)
-      {
-      alt = -PI - alt;
-      az -= PI;
-      }
-   sin_dec = sin( lat) * sin( alt) + cos_lat * cos( alt) * cos( az);
-   *dec = asine( sin_dec);
-   if( cos_lat < .00001)         /* polar case */
-      *hr_ang = az + PI;
-   else
-      {
-      temp = cos_lat * cos( *dec);
-      temp = (sin( alt) - sin( lat) * sin_dec) / temp;
-      temp = acose( -temp);
-      if( sin( az) > 0.)
-         *hr_ang = PI - temp;
-      else
-         *hr_ang = PI + temp;
-      }
+   *dec = atan2( z, sqrt( x * x + y * y));
+   *hr_ang = atan2( y, x);
 }
 
 void DLL_FUNC full_alt_az_to_ra_dec( DPT DLLPTR *ra_dec,
-- 
2.43.0


From 27e5a11a31a7961d81ff021f1c104299dd4270c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 058/107] fix: full_alt_az_to_ra_dec() left out the nutation
 that full_ra_dec_to_alt_az() puts in

---
 alt_az.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 76ca07c..6231b8c 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -91,12 +91,15 @@ void DLL_FUNC full_alt_az_to_ra_dec( DPT DLLPTR *ra_dec,
                               const DPT DLLPTR *alt_az,
                               const double jd_utc, const DPT DLLPTR *latlon)
 {
-   double hr_ang, ra;
+   double hr_ang, ra, nutation_lon;
+   const double cos_obliq_2000 = 0.917482062069181825744000384639406458043;
    DPT tmp;
 
    alt_az_to_ra_dec( alt_az->y, alt_az->x, &hr_ang,
                                          &tmp.y, latlon->y);
    ra = hr_ang + green_sidereal_time( jd_utc) + latlon->x;
+   nutation( (jd_utc - J2000) / 36525., &nutation_lon, NULL);
+   ra += cos_obliq_2000 * nutation_lon * (PI / 180.) / 3600.;
    tmp.x = fmod( -ra, TWO_PI);
    precess_pt( ra_dec, &tmp, 2000. + (jd_utc - J2000) / 365.25, 2000.);
 }
-- 
2.43.0


From ea4949a50860166c07924a1eb28914fc2f2808c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 059/107] fix: a latitude or longitude with no compass letter
 at the end of the text was read past its end

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 8f2f4cf..4451fa0 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -567,7 +567,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
    if( n_fields && rval == GOT_NOTHING)
       {
-      if( !compass_byte && strchr( compass, *tptr))
+      if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
          compass_byte = *tptr++;
 /*       printf( "Got byte '%c'; value %f\n", compass_byte, *value); */
-- 
2.43.0


From fc2733c3b64cd3b5899aae203c765524860238ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 060/107] fix: point_to_ellipse() measured points on the minor
 axis from the major one

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 4451fa0..d9d89be 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From 4c0fd752fb2a0b435b9a43ef03900df39a541a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 061/107] fix: rovers on the equator or the prime meridian were
 put at the center of the planet

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index d9d89be..06ba958 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -346,7 +346,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                   cinfo->lat = cinfo->lon = cinfo->alt = 0.;
                }
             cinfo->planet = rval;
-            if( cinfo->lat && cinfo->lon)   /* i.e.,  topocentric */
+            if( cinfo->lat || cinfo->lon)   /* i.e.,  topocentric */
                _set_parallax_constants( cinfo);
             }
          }
-- 
2.43.0


From 1e19ba2225a47a8bbac767beb747333706fd8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 062/107] fix: planet_axis_ratio() of a negative planet number
 read outside its table

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 06ba958..9378bee 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -94,7 +94,7 @@ const double polar_radii[N_POLAR_RADII] = {
 
 double planet_axis_ratio( const int planet_idx)
 {
-   return( planet_idx >= N_POLAR_RADII ?
+   return( planet_idx < 0 || planet_idx >= N_POLAR_RADII ?
             1 : polar_radii[planet_idx] / equatorial_radii[planet_idx]);
 }
 
-- 
2.43.0


From edcdbba102e10479909da4fd41f6880b2417f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 063/107] fix: get_mpc_code_info() read past the end of short
 lines, and named rovers by what follows theirs

---
 mpc_code.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 9378bee..ee6fa61 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -337,7 +337,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                }
             cinfo->lon *= PI / 180.;
             cinfo->lat *= PI / 180.;
-            cinfo->name = buff + 47;
+            cinfo->name = buff + (strlen( buff) < 47 ? strlen( buff) : 47);
             cinfo->format = MPC_CODE_LAT_LON_ALT;
             if( tptr)                     /* non-earth location */
                {
@@ -379,8 +379,8 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
       else
          rval = -1;
       }
-   memcpy( cinfo->code, buff, 4);
-   if( buff[3] == ' ')        /* standard 3-character code */
+   strncpy( cinfo->code, buff, 4);
+   if( cinfo->code[3] == ' ') /* standard 3-character code */
       cinfo->code[3] = '\0';
    else                       /* 'extended' 4-character code */
       cinfo->code[4] = '\0';
-- 
2.43.0


From 84acea5b33f65f310683699a3cf5af0484206db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 064/107] fix: get_dec_from_string() read one byte of
 declinations beyond 90 degrees, instead of none

---
 mpc_code.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index ee6fa61..667e55d 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -692,11 +692,11 @@ double get_dec_from_string( const char *buff, int *bytes_read)
       int n_fields;
       double rval = _get_angle( buff + 1, bytes_read, &n_fields);
 
-      if( !n_fields || rval > 90.)
-         *bytes_read = 0;
       if( *buff == '-')
          rval = -rval;
-      if( n_fields)
+      if( !n_fields || fabs( rval) > 90.)
+         *bytes_read = 0;
+      else
          (*bytes_read)++;
       return( rval * PI / 180.);
       }
-- 
2.43.0


From 7340d031108a97f9f4e5b27ce3873b71190a4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 065/107] fix: names of regions were cut at their first
 non-ASCII byte

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 667e55d..50e8616 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -427,7 +427,7 @@ int extract_region_data_for_lat_lon( FILE *ifile, char *buff,
             if( d_lat1 * d_lat2 < 0.)
                {
                strcpy( buff, tbuff + 40);
-               while( buff[i] >= ' ')
+               while( (unsigned char)buff[i] >= ' ')
                   i++;
                buff[i] = '\0';   /* remove trailing CR/LF */
                }
-- 
2.43.0


From 5ff67e75dcc0443c905d4eda7fc1fe432e6d3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 066/107] fix: point_to_ellipse() gave NaN for points on the x
 axis of a circle

---
 mpc_code.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 50e8616..c0c6b11 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -169,6 +169,12 @@ double point_to_ellipse( const double a, const double b,
       if( dist)
          *dist = fy - b;
       }
+   else if( a == b)
+      {
+      lat = atan2( fy, fx);
+      if( dist)
+         *dist = sqrt( fx * fx + fy * fy) - a;
+      }
    else
       {
       const double c_squared = a * a - b * b;
-- 
2.43.0


From 990284df55c573a97355e24da434168acbc88ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 067/107] fix: a minus sign that is not ASCII cut short the
 right ascension of the pole of Mars

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index c463622..eb85ced 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -141,7 +141,7 @@ Obj: 4002 # Deimos (s)
 
 Obj: 4 # Mars
    r=3396.19,3376.20
-   a0= 317.269202 − 0.10927547T + 0.419057 sin M11
+   a0= 317.269202 - 0.10927547T + 0.419057 sin M11
    d0= 54.432516 - 0.05827105T + 1.591274 cos M12
    W= 176.049863 + 350.891982443297d + 0.584542 sin M13   # (c) See 2018 Jul 17 comments
 
-- 
2.43.0


From 83cdb156027ccb6842a6e74b5fb2af742d4ee027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 068/107] fix: the last object of cospar.txt, (25143) Itokawa,
 was never found

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index b5ffb1b..5ea0cb5 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -264,6 +264,8 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       }
+   if( curr_obj_from_file == object_number)     /* last object in file */
+      done = 1;
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-- 
2.43.0


From 4339333967d89edfa74b4e049e6bddf116086bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 069/107] fix: planet_radii() left the radii unset if it was
 the first to use cospar.txt

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index 5ea0cb5..759f419 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -122,7 +122,7 @@ static int get_cospar_data_from_text_file( int object_number,
          }
       cospar_text[line] = NULL;
       fclose( ifile);
-      if( !omega)        /* just loading coefficients;  not actually */
+      if( !omega && !radii)     /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
    *is_retrograde = false;
-- 
2.43.0


From 0774e15bad503431e1164edd1700e5c8d7b23e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 070/107] fix: an object with no rotation of the requested
 system got that of the object asked for before it

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index 759f419..b3d4b37 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -266,6 +266,8 @@ static int get_cospar_data_from_text_file( int object_number,
       }
    if( curr_obj_from_file == object_number)     /* last object in file */
       done = 1;
+   if( omega && !got_omega)      /* can't be oriented without one */
+      done = 0;
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-- 
2.43.0


From db2abbf88026ab543676677e2bb64a11ac999bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 071/107] fix: without cospar.txt, calc_planet_orientation()
 oriented planets with uninitialized values

---
 cospar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index b3d4b37..5e575fb 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -356,8 +356,8 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    static double prev_jd = -1.;
    static double prev_matrix[9];
    int i, rval;
-   bool is_retrograde;
-   double pole_ra, pole_dec, omega, tdt;
+   bool is_retrograde = false;
+   double pole_ra = 0., pole_dec = 0., omega = 0., tdt;
 
    if( planet_no == prev_planet_no && system_no == prev_system_no
                            && jd == prev_jd)
-- 
2.43.0


From 5319ccfdab99d72416dd201668323574a2a20e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 072/107] fix: angles in the first lines of a COSPAR file could
 not be used

---
 cospar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 5e575fb..b66c37c 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -160,7 +160,7 @@ static int get_cospar_data_from_text_file( int object_number,
       else if( planet && curr_obj_from_file == PLANET_SELECTED
                && tptr[0] == planet && tptr[1] == '1'
                && tptr[2] == '=')
-         angular_coeffs_line = line - 1;
+         angular_coeffs_line = line;
       else if( curr_obj_from_file == object_number)
          {
          double *oval = NULL;
@@ -234,7 +234,7 @@ static int get_cospar_data_from_text_file( int object_number,
                            err = -4;
                         }
                      assert( angular_coeffs_line);
-                     ang_ptr = cospar_text[angular_coeffs_line + idx] + 1;
+                     ang_ptr = cospar_text[angular_coeffs_line + idx - 1] + 1;
                      while( ang_ptr[-1] != '=')
                         ang_ptr++;
 
-- 
2.43.0


From f6b68c2509b6c20fca44ddc20909a8f2826ac2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 073/107] fix: planet orientations and rotation rates were kept
 after another cospar.txt, Delta-T or Earth orientation file was loaded

---
 cospar.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index b66c37c..39605f5 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -33,6 +33,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #define PLANET_SELECTED          -99998
 
 const char *cospar_filename = "cospar.txt";
+static int n_cospar_loads = 0;      /* lets cached results be told to be stale */
 
 /* Mostly complete code to compute COSPAR planetary,  satellite,  and
 asteroid orientations using data extracted from 'cospar.txt'.  Thus far,
@@ -70,6 +71,7 @@ static int get_cospar_data_from_text_file( int object_number,
       if( cospar_text)
          free( cospar_text);
       cospar_text = NULL;
+      n_cospar_loads++;
       return( 0);
       }
 
@@ -306,10 +308,11 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
 {
    const double dummy_tdt = 2451545.;     /* not really used */
    bool is_retrograde;
-   static int prev_planet_no = -99, prev_system_no;
+   static int prev_planet_no = -99, prev_system_no, prev_load = -1;
    static double omega;
 
-   if( planet_no != prev_planet_no || system_no != prev_system_no)
+   if( planet_no != prev_planet_no || system_no != prev_system_no
+                           || prev_load != n_cospar_loads)
       {
       const int rval = get_cospar_data_from_text_file( planet_no, system_no,
               dummy_tdt, NULL, NULL, &omega, NULL, &is_retrograde);
@@ -318,6 +321,7 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
          omega = 0.;
       prev_planet_no = planet_no;
       prev_system_no = system_no;
+      prev_load = (rval ? -1 : n_cospar_loads);
       }
    return( omega);
 }
@@ -352,25 +356,21 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 #endif
 {
    static int prev_planet_no = NO_OBJECT_SELECTED;
-   static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0;
-   static double prev_jd = -1.;
+   static int prev_system_no = NO_OBJECT_SELECTED, prev_load = -1;
+   static double prev_tdt = -1.;
    static double prev_matrix[9];
    int i, rval;
    bool is_retrograde = false;
    double pole_ra = 0., pole_dec = 0., omega = 0., tdt;
 
+   tdt = jd + td_minus_ut( jd) / seconds_per_day;
    if( planet_no == prev_planet_no && system_no == prev_system_no
-                           && jd == prev_jd)
+                           && tdt == prev_tdt && prev_load == n_cospar_loads)
       {
       memcpy( matrix, prev_matrix, 9 * sizeof( double));
-      return( prev_rval);
+      return( 0);
       }
 
-   prev_planet_no = planet_no;
-   prev_system_no = system_no;
-   prev_jd = jd;
-   tdt = jd + td_minus_ut( jd) / seconds_per_day;
-
    if( planet_no == 3)        /* handle earth with "normal" precession: */
       {
       const double J2000 = 2451545.;   /* 1.5 Jan 2000 = JD 2451545 */
@@ -382,8 +382,6 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
                /* it to point at E90... go figure.       */
       for( i = 3; i < 6; i++)
          matrix[i] = -matrix[i];
-      memcpy( prev_matrix, matrix, 9 * sizeof( double));
-      prev_rval = 0;
       return( 0);
       }
 
@@ -399,8 +397,14 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    if( is_retrograde)
       for( i = 3; i < 6; i++)
          matrix[i] *= -1.;
-   memcpy( prev_matrix, matrix, 9 * sizeof( double));
-   prev_rval = rval;
+   if( !rval)
+      {
+      prev_planet_no = planet_no;
+      prev_system_no = system_no;
+      prev_tdt = tdt;
+      prev_load = n_cospar_loads;
+      memcpy( prev_matrix, matrix, 9 * sizeof( double));
+      }
    return( rval);
 }
 
-- 
2.43.0


From 0108ef9e505aa2f787e9f0c7201570d1dd2f676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 074/107] fix: a line with just a comment, if indented, shifted
 the angles in cospar.txt used by later lines

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index 39605f5..756b5c5 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -105,6 +105,8 @@ static int get_cospar_data_from_text_file( int object_number,
                      if( buff[j] != ' ')
                         buff[i++] = buff[j];
                buff[i] = '\0';
+               if( !i)           /* there was nothing but spaces */
+                  continue;
                if( pass)
                   {
                   strcpy( cospar_text[line], buff);
-- 
2.43.0


From ad7182147006b7b76e16f627d1512e174138253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 075/107] fix: lowercase hexadecimal digits in form data were
 refused

---
 cgi_func.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..a0c4a21 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,6 +129,8 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
                return( -1);         /* not supposed to happen */
             }
-- 
2.43.0


From 123cee58311c2a5e845f036ef8dcc8b681a02fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 076/107] fix: form data with a bad escape sequence was
 returned as if it were good, unterminated

---
 cgi_func.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index a0c4a21..5bbc866 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -132,7 +132,10 @@ static int get_urlencoded_piece( const char **idata,
             else if( c1 >= 'a' && c1 <= 'f')
                c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
+               {
+               *buff = '\0';
                return( -1);         /* not supposed to happen */
+               }
             }
          }
       *buff++ = (char)c;
@@ -153,6 +156,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c < 0)
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From 721e422f7c08401a73a802a1dae7af52572a15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 077/107] fix: form data ended at the first byte beyond ASCII

---
 cgi_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 5bbc866..80b4ec7 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -112,7 +112,7 @@ static int get_urlencoded_piece( const char **idata,
    const char *tptr = *idata;
 
    max_buff--;
-   while( (c = *tptr++) > 13 && max_buff-- && c != end_char)
+   while( (c = (unsigned char)*tptr++) > 13 && max_buff-- && c != end_char)
       {
       if( c == '+')
          c = ' ';
-- 
2.43.0


From 2af94a3e5312de63d2518e76f58b2169ab64ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 078/107] fix: multipart form data: long field names overran
 the buffer, the boundary was compared past its end, and header lines after
 the first were taken for data

---
 cgi_func.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 80b4ec7..0574526 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -162,6 +162,7 @@ int get_urlencoded_form_data( const char **idata,
 }
 
 #define OVERRUN         -3
+#define MAX_FIELD       30
 
 int get_multipart_form_data( const char *boundary, char *field,
                 char *buff, char *filename, const size_t max_len)
@@ -182,6 +183,8 @@ int get_multipart_form_data( const char *boundary, char *field,
       if( strlen( buff) == max_len - 1)
          return( OVERRUN);
       *endptr = '\0';
+      if( endptr - (tptr + 6) >= MAX_FIELD)
+         return( OVERRUN);
       strcpy( field, tptr + 6);
       if( filename && filename_ptr
              && (endptr = strchr( filename_ptr + 10, '"')) != NULL)
@@ -189,15 +192,19 @@ int get_multipart_form_data( const char *boundary, char *field,
          *endptr = '\0';
          strcpy( filename, filename_ptr + 10);
          }
-      if( fgets( buff, (int)max_len, stdin))
+      do       /* skip other header lines and the blank one ending them */
          {
+         if( !fgets( buff, (int)max_len, stdin))
+            *buff = '\0';
          if( strlen( buff) == max_len - 1)
             return( OVERRUN);
+         }
+         while( (unsigned char)*buff >= ' ');
+      if( *buff)
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
-                 && memcmp( buff + bytes_read, boundary, blen))
+                 && strncmp( buff + bytes_read, boundary, blen))
             bytes_read += strlen( buff + bytes_read);
-         }
       }
    else
       return( -1);
@@ -284,7 +291,7 @@ int initialize_cgi_reading( void)
 int get_cgi_data( char *field, char *data, char *filename, const size_t max_data)
 {
    int rval;
-   const size_t max_field = 30;
+   const size_t max_field = MAX_FIELD;
 
    switch( method)
       {
-- 
2.43.0


From 5e5a6d7a059d6fc27d45f1a4b9795a5f27faddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 079/107] fix: reading form data twice freed the first one's
 buffer twice; a request with no length, or a short content type, was not
 refused

---
 cgi_func.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 0574526..3b33351 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -251,7 +251,7 @@ static int method, ilen;
 
 int initialize_cgi_reading( void)
 {
-   method = 0;
+   free_cgi_data( );
    url_string = getenv( "QUERY_STRING");
    if( url_string && *url_string)      /* METHOD=GET */
       {
@@ -264,19 +264,25 @@ int initialize_cgi_reading( void)
 
       if( !eptr)
          return( -1);
-      if( !memcmp( eptr, "application/x-www-form-urlencoded", 33))
+      if( !strncmp( eptr, "application/x-www-form-urlencoded", 33))
          method = METHOD_PUT_URL;
-      else if( !memcmp( eptr, "multipart/form-data;", 20))
+      else if( !strncmp( eptr, "multipart/form-data;", 20))
          method = METHOD_PUT_MULTIPART;
       else
          return( -2);
       eptr = getenv( "CONTENT_LENGTH");
-      assert( eptr);
-      ilen = atoi( eptr);
-      assert( ilen);
+      ilen = (eptr ? atoi( eptr) : 0);
+      if( ilen <= 0)
+         {
+         method = 0;
+         return( -3);
+         }
       ibuff = (char *)malloc( ilen + 1);
-      if( !fgets( ibuff, ilen + 1, stdin))
+      if( !ibuff || !fgets( ibuff, ilen + 1, stdin))
+         {
+         method = 0;
          return( -3);
+         }
       if( method == METHOD_PUT_URL)
          url_pointer = ibuff;
       else           /* must be multipart */
@@ -320,4 +326,8 @@ void free_cgi_data( void)
 {
    if( ibuff)
       free( ibuff);
+   if( boundary)
+      free( boundary);
+   ibuff = boundary = NULL;
+   method = 0;
 }
-- 
2.43.0


From 45f789291a008ffbafb47fed89bf31b7a719d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 080/107] fix: text_search_and_replace() never ended for an
 empty text to be replaced

---
 mpc_fmt2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index afd2248..6533c7a 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -22,7 +22,7 @@ int text_search_and_replace( char *str, const char *oldstr,
    const size_t oldlen = strlen( oldstr);
    const size_t newlen = strlen( newstr);
 
-   while( ilen >= oldlen)
+   while( oldlen && ilen >= oldlen)
       if( !memcmp( str, oldstr, oldlen))
          {
          memmove( str + newlen, str + oldlen, ilen - oldlen + 1);
-- 
2.43.0


From 4224eca2b8a2204ac9b48a3887e8ad7749fbd0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 081/107] fix: a short line of orbital elements in SOF form was
 read past its end

---
 sof.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sof.cpp b/sof.cpp
index ab038b9..0fb5d78 100644
--- a/sof.cpp
+++ b/sof.cpp
@@ -87,15 +87,18 @@ int extract_sof_data_ex( ELEMENTS *elem, const char *buff, const char *header,
          extra_info[i] = 0.;
    while( *header >= ' ')
       {
-      size_t i = 0;
+      size_t i = 0, j;
       char tbuff[80];
 
       while( header[i] >= ' ' && header[i] != '|')
          i++;
       if( i < 2 || i >= sizeof( tbuff))
          return( -1);
-      memcpy( tbuff, buff, i);
-      tbuff[i] = '\0';
+      for( j = 0; j < i && buff[j] && buff[j] != 10 && buff[j] != 13; j++)
+         tbuff[j] = buff[j];
+      if( !j)                       /* reached the end of the line */
+         break;
+      tbuff[j] = '\0';
       if( header[1] == ' ')
          {
          switch( header[0])
@@ -180,6 +183,8 @@ int extract_sof_data_ex( ELEMENTS *elem, const char *buff, const char *header,
          }
       if( !memcmp( header, "rms", 3) && extra_info)
          extra_info[3] = atof( tbuff);
+      if( j < i || !buff[i] || buff[i] == 10 || buff[i] == 13)
+         break;
       if( header[i] == '|')
          i++;
       header += i;
-- 
2.43.0


From 8bca9b08ccd978a4c946bc0d9bfde32115cfb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 082/107] fix: dates in SOF lines were misread if padded with
 leading blanks

---
 sof.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sof.cpp b/sof.cpp
index 0fb5d78..182507a 100644
--- a/sof.cpp
+++ b/sof.cpp
@@ -57,6 +57,8 @@ double extract_yyyymmdd_to_jd( const char *buff)
    int bytes_read;
    double rval = 0.;
 
+   while( *buff == ' ')
+      buff++;
    if( sscanf( buff, "%ld%n", &t, &bytes_read) == 1)
       {
       if( bytes_read == 8)    /* YYYYMMDD */
-- 
2.43.0


From 4f578c1bcb7358a383a9420cbbf1ce2a0b614b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 083/107] fix: comets overran the buffer of mpc2sof

---
 mpc2sof.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc2sof.cpp b/mpc2sof.cpp
index 4c72a89..056df81 100644
--- a/mpc2sof.cpp
+++ b/mpc2sof.cpp
@@ -211,8 +211,10 @@ int main( const int argc, const char **argv)
             strcat( tbuff, "           ");    /* rms, number obs */
             strcat( tbuff, "                                     \n");     /* Tlast, perts, H, G */
             assert( strlen( tbuff) == reclen);
-            memcpy( obuff + n_out * reclen, tbuff, reclen);
             n_out++;
+            if( IS_POWER_OF_TWO( n_out))
+               obuff = (char *)realloc( obuff, n_out * 2 * reclen);
+            memcpy( obuff + (n_out - 1) * reclen, tbuff, reclen);
             }
       fclose( ifile);
       }
-- 
2.43.0


From f9b32557bbbc828c2efe49c12287a763d68bf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 084/107] fix: perihelion distances in kilometers lost their
 unit in precise elements

---
 showelem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/showelem.cpp b/showelem.cpp
index c24b5c3..bd853d5 100644
--- a/showelem.cpp
+++ b/showelem.cpp
@@ -214,7 +214,7 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
       show_formatted_dist( obuff + 1, (endptr - obuff) - 1, perihelion_dist, precision);
       for( i = (int)strlen( obuff); i < n_digits_to_show + 9; i++)
          obuff[i] = ' ';
-      obuff[n_digits_to_show + 9] = '\0';
+      obuff[i] = '\0';
       }
    else
       {
-- 
2.43.0


From 75d126988e3e68afda48255b52fc7f46d62f256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:51 +0000
Subject: [PATCH 085/107] fix: element dates could be rounded to a day past the
 end of the month

---
 showelem.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/showelem.cpp b/showelem.cpp
index bd853d5..e72729e 100644
--- a/showelem.cpp
+++ b/showelem.cpp
@@ -68,6 +68,30 @@ double DLL_FUNC decimal_day_to_dmy( double jd, long *year, int *month,
    return( (double)day + jd - floor_jd);
 }
 
+      /* As above,  but for a date shown to 'precision' places of a day: */
+      /* if that will round up to the next day,  that day is returned.   */
+
+static double rounded_day_to_dmy( const double jd, long *year, int *month,
+                                       const int precision)
+{
+   double day = decimal_day_to_dmy( jd, year, month, CALENDAR_JULIAN_GREGORIAN);
+   double half = .5, next_day;
+   int i, next_month;
+   long next_year;
+
+   for( i = 0; i < precision; i++)
+      half /= 10.;
+   next_day = floor( decimal_day_to_dmy( jd + half, &next_year, &next_month,
+                                             CALENDAR_JULIAN_GREGORIAN));
+   if( next_day != floor( day))
+      {
+      day = next_day;
+      *year = next_year;
+      *month = next_month;
+      }
+   return( day);
+}
+
       /* "normal_vector" takes a vector in ecliptic J2000 coordinates and */
       /* returns a _normalized_ vector rotated to _equatorial_ J2000. */
 static double normal_vect( double *norm, const double *ival)
@@ -174,8 +198,7 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
             (elem->central_obj >= -1 && elem->central_obj < N_PERICENTERS - 1) ?
             perinames[elem->central_obj + 1] : "----";
 
-      dday = decimal_day_to_dmy( elem->perih_time, &year, &month,
-                                             CALENDAR_JULIAN_GREGORIAN);
+      dday = rounded_day_to_dmy( elem->perih_time, &year, &month, precision);
       snprintf_err( obuff, endptr - obuff, "   Peri%s %ld %s %.*f TT",
               pericenter_name, year,
               set_month_name( month, NULL), precision, dday);
@@ -194,10 +217,9 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
       n_lines++;
       }
 
-   dday = decimal_day_to_dmy( elem->epoch, &year, &month,
-                                             CALENDAR_JULIAN_GREGORIAN);
+   dday = rounded_day_to_dmy( elem->epoch + 1.e-7, &year, &month, 6);
    snprintf_err( obuff, endptr - obuff, "Epoch %4ld %s %9.6f TT = JDT %.6f", year,
-              set_month_name( month, NULL), dday + 1.e-7, elem->epoch + 1.e-7);
+              set_month_name( month, NULL), dday, elem->epoch + 1.e-7);
                      /* lop off trailing zeroes after JD...: */
    for( i = 0; i < 5 && obuff[strlen( obuff) - (size_t)i - 1] == '0'; i++)
       ;
-- 
2.43.0


From 945e55bae1604b499c4d7e7a0515b890240d763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 086/107] fix: constellations of places with a negative right
 ascension were found a second of time off

---
 conbound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conbound.c b/conbound.c
index d94f729..2cebae6 100644
--- a/conbound.c
+++ b/conbound.c
@@ -377,7 +377,7 @@ int DLL_FUNC constell_from_ra_dec( const double ra_degrees_1875,
                                    const double dec_degrees_1875,
                                    char DLLPTR *constell_name)
 {
-   const int32_t ra = ((int32_t)(ra_degrees_1875 * 240.) + 864000) % 86400;
+   const int32_t ra = (int32_t)(ra_degrees_1875 * 240. + 864000.) % 86400;
    const int16_t spd = (int16_t)( (dec_degrees_1875 + 90.) * 60.);
    int idx = -1, step = 512;
    int rval = -1;
-- 
2.43.0


From a8d9110a80dd5f12fbf2ff5f3a912b6048888146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 087/107] fix: variable star designations lost digits from
 V10000 on

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index d49bd1a..370e4bd 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -144,7 +144,7 @@ void DLL_FUNC make_var_desig( char DLLPTR *buff, int var_no)
    else if( var_no > 334)
       {
       *buff++ = 'V';
-      for( i = 1000; i; i /= 10)
+      for( i = 1000000000; i; i /= 10)
          if( var_no >= i)
             *buff++ = (char)( (var_no / i) % 10 + '0');
       *buff = '\0';
-- 
2.43.0


From 5cbf5dd5a064fc301c0ddec1d9f84ee829da01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 088/107] fix: an empty variable star designation was read past
 its end

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 370e4bd..bc1edc4 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -219,7 +219,7 @@ int DLL_FUNC decipher_var_desig( const char DLLPTR *desig)
    int len, first,  second, rval = -2;
 
    first = toupper( desig[0]);
-   second = toupper( desig[1]);
+   second = (first ? toupper( desig[1]) : 0);
    for( len = 0; desig[len] && desig[len] != ' '; len++)
       ;
    switch( len)
-- 
2.43.0


From 4c514cc09306c3c67ee5dfb6bc79ba4eed52b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 089/107] fix: VSOP places for the planet last asked for were
 summed with the header of an earlier file

---
 big_vsop.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index f99adcb..d63982b 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -90,15 +90,12 @@ the final series actually ends.)
 
    Since each header entry is a short int,  we're looking at 290 bytes.
 
-   In a possibly misguided effort to save space (well,  it _did_ make
-lots of sense back in 1993!),  I store the header data needed for
-one particular planet in RAM at a given time.  If someone asks for
-a "new planet" (in big_vsop.cpp,  'if( curr_planet != planet)'),
-then we dig through 'big_vsop.bin' for the required header data
-and store it in a static array.  That requirement is for nineteen
+   We dig through 'big_vsop.bin' for the header data needed for one
+particular planet.  (It isn't kept from one call to the next,  since
+that may be for a different file.)  That requirement is for nineteen
 short integers:  there are three values to be computed (lat/lon/r)
 and six series for each of them (1, t, t^2, ...t^5),  and we need
-to know where the last of them ends.  So the static array 'cache'
+to know where the last of them ends.  So the array 'cache'
 is dimensioned for 19 shorts.
 
    We then use that data stored in 'cache' to go forth and grab
@@ -121,8 +118,7 @@ in 'big_vsop.cpp' reads as
 int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
                       double *ovals, double t, const double prec0)
 {
-   static int16_t cache[19];
-   static int curr_planet = 99;
+   int16_t cache[19];
    int close_it = 0, value;
 
    ovals[0] = ovals[1] = ovals[2] = 0.;
@@ -135,12 +131,12 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       }
    if( !ifile)
       return( -1);                              /* ...then give up. */
-   if( curr_planet != planet)
-      {                             /* reload the cache */
-      fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
-      if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
-         return( -2);
-      curr_planet = planet;
+   fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
+   if( fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+      {
+      if( close_it)
+         fclose( ifile);
+      return( -2);
       }
 
    t /= 10.;         /* convert to julian millennia */
-- 
2.43.0


From daf9a66265b13e9c2f31861ced217b8c2cbc5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 090/107] fix: before 2000, terms below the precision asked for
 were not left out of the VSOP sums

---
 big_vsop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index d63982b..be8189a 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -169,7 +169,7 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
          rval += sum * power;
          power *= t;
          if( t)
-            prec /= t;
+            prec /= fabs( t);
          }
       ovals[value] = rval;
       }
-- 
2.43.0


From 69fdc1cf6bc78c5bcacf4c06f200f732b9e128c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 091/107] fix: a VSOP file cut short was left open, or summed
 with half a term

---
 big_vsop.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index be8189a..0230c64 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -157,8 +157,12 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
          sum = 0.;
          for( j = loc[1] - loc[0]; j; j--)
             {
-            if( !fread( idata, 3, sizeof( double), ifile))
+            if( fread( idata, sizeof( double), 3, ifile) != 3)
+               {
+               if( close_it)
+                  fclose( ifile);
                return( -3);
+               }
             if( idata[0] > prec || idata[0] < -prec)
                {
                double argument = idata[1] + idata[2] * t;
-- 
2.43.0


From 0b4aace4d8443981c9104a94ec34113acbbba139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 092/107] fix: compute_planet() aborted when asked for Pluto

---
 getplane.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/getplane.cpp b/getplane.cpp
index d0a6195..9183a6a 100644
--- a/getplane.cpp
+++ b/getplane.cpp
@@ -49,6 +49,24 @@ int DLL_FUNC compute_planet( const char FAR *vsop_data, const int planet_no,
    double matrix[9];
    const double obliq_2000 = 23.4392911 * PI / 180.;
 
+   if( planet_no == 9)     /* Pluto's series gives ecliptic J2000 coordinates; */
+      {                    /* work from these back to the ecliptic of date     */
+      calc_pluto_loc( vsop_data, ovals, t_c, 0L);
+      r = ovals[2];
+      ovals[12] = cos( ovals[0]) * cos( ovals[1]) * r;
+      ovals[13] = sin( ovals[0]) * cos( ovals[1]) * r;
+      ovals[14] =                  sin( ovals[1]) * r;
+      FMEMCPY( ovals + 9, ovals + 12, 3 * sizeof( double));
+      rotate_vector( ovals + 9, obliq_2000, 0);
+      setup_precession( matrix, 2000., 2000. + t_c * 100.);
+      precess_vector( matrix, ovals + 9, ovals + 6);
+      FMEMCPY( ovals + 3, ovals + 6, 3 * sizeof( double));
+      rotate_vector( ovals + 3, -obliquit, 0);
+      lon = atan2( ovals[4], ovals[3]);
+      ovals[0] = (lon < 0. ? lon + 2. * PI : lon);
+      ovals[1] = asin( ovals[5] / r);
+      return( 0);
+      }
             /* first,  compute polar heliocentric in eclip of date */
    if( planet_no != 10)
       {
-- 
2.43.0


From 95c1703a75878452b2789a8fddd6f429b20297ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 093/107] fix: ELP-82 series were dropped where the last few
 terms end the file, or where the file is cut short

---
 elp82dat.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 3ef9df5..9169eeb 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -131,7 +131,8 @@ static void compute_lunar_polynomials( const double t_cen, double *fund,
 #define CHUNK_SIZE 10000
 
 static double add_in_series( FILE *ifile, const int series_no,
-                 const double *fund, const double prec, long n_terms)
+                 const double *fund, const double prec, long n_terms,
+                 int *read_error)
 {
    double rval = 0.;
    char *tptr, *ibuff;
@@ -182,11 +183,16 @@ static double add_in_series( FILE *ifile, const int series_no,
       double angle;
 
       if( ibuff == tptr)
-         if( !fread( ibuff, chunk_size, term_size, ifile))
+         {
+         if( chunk_size > (size_t)n_terms + 1)
+            chunk_size = (size_t)n_terms + 1;
+         if( fread( ibuff, term_size, chunk_size, ifile) != chunk_size)
             {
             free( ibuff);
+            *read_error = -3;
             return( 0.);
             }
+         }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
          return( rval * 1.e-5);
@@ -269,7 +275,7 @@ ELP_DATA_HEADER
 static int get_elp_values( FILE *ifile, const double t_cen,
                      const double prec0, double *ovals)
 {
-   int i;
+   int i, rval = 0;
    double addition;
    double fund[N_FUND_COEFFS];
    ELP_DATA_HEADER *hdr = (ELP_DATA_HEADER *)malloc( sizeof( ELP_DATA_HEADER));
@@ -302,7 +308,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
       fseek( ifile, hdr->offsets[i + i], SEEK_SET);
       if( hdr->offsets[i + i + 1])
          addition = add_in_series( ifile, i, fund, prec,
-                                               hdr->offsets[i + i + 1]);
+                                       hdr->offsets[i + i + 1], &rval);
       else
          addition = 0.;
       if( series_type == 2 || series_type == 4 ||
@@ -316,7 +322,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
          ovals[i % 3] += addition * (PI / 180.) / 3600.;
       }
    free( hdr);
-   return( 0);
+   return( rval);
 }
 
                /* Laskar's coeffs for precession,  p. 12: */
-- 
2.43.0


From c573605f58ebc02244ed541c95375c89e78617df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:06 +0000
Subject: [PATCH 094/107] fix: summing an ELP-82 series to limited precision
 lost the memory it had been read into

---
 elp82dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 9169eeb..ffe17ef 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -195,7 +195,7 @@ static double add_in_series( FILE *ifile, const int series_no,
          }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
-         return( rval * 1.e-5);
+         break;
       switch( series_type)
          {
          case 0:        /* main problem */
-- 
2.43.0


From 163c6076e8572920f94bf53836406389d37a2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 095/107] fix: the point of a nearly circular ellipse nearest
 to one close to its major axis was far off

---
 mpc_code.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index c0c6b11..c3e57ab 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -177,19 +177,25 @@ double point_to_ellipse( const double a, const double b,
       }
    else
       {
-      const double c_squared = a * a - b * b;
+      const double c_squared = (a - b) * (a + b);
       const double e = (b * fy - c_squared) / (a * fx);      /* 4.22-12/6 */
       const double f = (b * fy + c_squared) / (a * fx);      /* 4.22-13/7 */
       const double p = (4. / 3.) * (e * f + 1.);             /* 4.22-14/9 */
-      const double q = 2. * (e * e - f * f);                 /* 4.22-15/10 */
+      const double q = -8. * (b * fy / (a * fx))    /* = 2(e^2-f^2) */
+                           * (c_squared / (a * fx));         /* 4.22-15/10 */
       const double d = p * p * p + q * q;                    /* 4.22-16/12 */
-      double v, g, t;
+      double v, g, t, r;      /* rearranged where digits would be lost */
 
       if( d >= 0.)
          {
          const double sqrt_d = sqrt( d);
 
-         v = cbrt( sqrt_d - q) - cbrt( sqrt_d + q);         /* 4.22-17/11a */
+         const double v1 = cbrt( sqrt_d - q);
+         const double v2 = (v1 > 0. ? p / v1 : 0.);   /* = cbrt( sqrt_d + q) */
+
+         v = v1 - v2;                                       /* 4.22-17/11a */
+         if( v2 > 0.)
+            v = -2. * q / (v1 * v1 + v1 * v2 + v2 * v2);
          }
       else
          {
@@ -198,8 +204,11 @@ double point_to_ellipse( const double a, const double b,
 
          v = 2. * sqp * cos( temp_ang / 3.);                      /* 11b */
          }
-      g = (sqrt( e * e + v) + e) * .5;                     /* 4.22-18/14 */
-      t = sqrt( g * g + (f - v * g) / (2. * g - e)) - g;   /* 4.22-19/13 */
+      r = sqrt( e * e + v);                                /* = 2g - e */
+      g = (e < 0. ? .5 * v / (r - e) : (r + e) * .5);      /* 4.22-18/14 */
+      t = (f - v * g) / r;
+      t = (g > 0. ? t / (sqrt( g * g + t) + g)             /* 4.22-19/13 */
+                  : sqrt( g * g + t) - g);
       lat = atan2( a * (1. - t * t), 2. * b * t);          /* 4.22-20/15a */
       if( dist)                                            /* 4.22-21/15b */
          *dist = (fx - a * t) * cos( lat) + (fy - b) * sin( lat);
-- 
2.43.0


From 0d91a610d445728d3e340ef8a7cf06804132aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 096/107] fix: Pluto's longitude of perihelion was taken for
 its argument of perihelion

---
 moid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index b82eeaa..384e809 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -384,7 +384,7 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
    elem->asc_node = elem_array[3];
                /* For planets,  the longitude of perihelion is given. */
                /* For asteroids,  it's the argument of perihelion.    */
-   if( planet_idx < 9)
+   if( planet_idx <= N_PLANET_RATES)
       elem->arg_per = elem_array[4] - elem_array[3];
    else
       elem->arg_per = elem_array[4];
-- 
2.43.0


From 7c1a1296ee38305ed5fe953bbe69bfe15a487c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 097/107] fix: MOID data were for another point where the
 orbits come closest at a starting point

---
 moid.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index 384e809..7082bca 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -177,7 +177,7 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    moid_data_t mdata2;
    double least_dist_squared = 10000.;
    int i, j, n_steps, pass;
-   double true_anomaly2, dist_squared, min_true2 = 0.;
+   double true_anomaly2, dist_squared, min_true2;
    double min_true_anom = 0., max_true_anom = PI, dist;
    const double Q1 = elem1->major_axis * 2. - elem1->q;
    const double Q2 = elem2->major_axis * 2. - elem2->q;
@@ -196,11 +196,15 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    true_anomaly2 = true_anom_from_r( elem2, elem1->major_axis);
 // printf( "Nominal MOID true anom %f\n", true_anomaly2 * 180. / PI);
    least_dist_squared = find_point_moid_2( &idata, true_anomaly2);
+   min_true2 = true_anomaly2;
    if( true_anomaly2 && true_anomaly2 != PI)
       {
       dist_squared = find_point_moid_2( &idata, -true_anomaly2);
       if( least_dist_squared > dist_squared)
+         {
+         min_true2 = -true_anomaly2;
          least_dist_squared = dist_squared;
+         }
       }
    if( elem2->ecc < 1.)
    {
@@ -218,7 +222,10 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
          dist_squared = find_point_moid_2( &idata, pass * PI - arg_per);
 //       printf( "dist at node : %f\n", sqrt( dist_squared));
          if( dist_squared < least_dist_squared)
+            {
+            min_true2 = pass * PI - arg_per;
             least_dist_squared = dist_squared;
+            }
          }
    }
    for( pass = 0; pass < 2; pass++)
-- 
2.43.0


From a856974c3b50c8950fa6910873088b4824e75be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 098/107] fix: five coefficients of the Galilean satellites'
 theory were mistyped

---
 jsats.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsats.cpp b/jsats.cpp
index 6684c3b..d16c75b 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -92,7 +92,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                   /* mean longitudes of satellites, p 289: */
    const double l1 = LINEAR_FUNC( 106.07719, 203.488955790, t);
    const double l2 = LINEAR_FUNC( 175.73161, 101.374724735, t);
-   const double l3 = LINEAR_FUNC( 120.55883,  50.317609209, t);
+   const double l3 = LINEAR_FUNC( 120.55883,  50.317609207, t);
    const double l4 = LINEAR_FUNC(  84.44459,  21.571071177, t);
 
                   /* longitudes of perijoves: */
@@ -160,10 +160,10 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
       tan_lat[1] = 6393.e-7 * sin( lon[1] - ome1)
              + 1825.e-7 * sin( lon[1] - ome2)
              +  329.e-7 * sin( lon[1] - ome3)
-             +  311.e-7 * sin( lon[1] - psi)
+             -  311.e-7 * sin( lon[1] - psi)
              +   93.e-7 * sin( lon[1] - ome4);
       rad[1] = -41339.e-7 * cos( 2. * (l1 - l2))
-               -  387.e-7 * cos( l1 - pi1)
+               -  387.e-7 * cos( l1 - pi3)
                -  214.e-7 * cos( l1 - pi4)
                +  170.e-7 * cos( l1 - l2)
                -  131.e-7 * cos( 4. * (l1 - l2))
@@ -257,7 +257,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                + 321.e-7 * sin( lon[3] + psi - twice_per_plus_g)
                +  51.e-7 * sin( lon[3] - psi + g)
                -  45.e-7 * sin( lon[3] - psi - g)
-               -  45.e-7 * sin( lon[3] - psi - 2. * PER);
+               -  45.e-7 * sin( lon[3] + psi - 2. * PER);
       rad[3] = -14388.e-7 * cos( l3 - pi3)
                 -7919.e-7 * cos( l3 - pi4)
                 +6342.e-7 * cos( l2 - l3)
@@ -266,7 +266,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                 - 156.e-7 * cos( 3. * (l3 - l4))
                 + 156.e-7 * cos( l1 - l3)
                 - 153.e-7 * cos( l1 - l2)
-                -  70.e-7 * cos( 2. * l2 - 3. * l3 + pi3);
+                +  70.e-7 * cos( 2. * l2 - 3. * l3 + pi3);
       }
 
    if( sats_wanted & 8)       /* callisto */
-- 
2.43.0


From a9145b2275da64a9f077957d267cd6df29687627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 099/107] fix: Hyperion's semimajor axis hardly varied:  its
 terms are already in AU

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index b4437de..9833e2e 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -363,13 +363,13 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->omega += C_omega_2zeta * arg;
 
          arg = cos( tau);
-         elems->semimaj += C_a_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_tau * arg;
          elems->ecc += C_e_tau * arg;
          arg = cos( zeta + tau);
-         elems->semimaj += C_a_zeta_plus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_plus_tau * arg;
          elems->ecc += C_e_zeta_plus_tau * arg;
          arg = cos( zeta - tau);
-         elems->semimaj += C_a_zeta_minus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_minus_tau * arg;
          elems->ecc += C_e_zeta_minus_tau * arg
                       + C_e_zeta * cos( zeta)
                       + C_e_2zeta * cos( zeta + zeta)
-- 
2.43.0


From 704c4b28020b0e4406fb8fb384d60fbe3a22a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 100/107] fix: the Sun's effect on Titan's apse was multiplied
 by the eccentricity

---
 ssats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssats.cpp b/ssats.cpp
index 9833e2e..ffc86e2 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -256,7 +256,7 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-         elems->omega += beta * elems->ecc * (sin( g + g) - sin( g0 + g0));
+         elems->omega += beta * (sin( g + g) - sin( g0 + g0));
          }
          break;
       case HYPERION:
-- 
2.43.0


From f88109d77aa8ca8f71adcc41bb977f2038aea06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 101/107] fix: the Sun's effects on Iapetus were reckoned from
 the node of Titan's orbit

---
 ssats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index ffc86e2..9fbd7e5 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -433,11 +433,11 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
                                   -.06312 * sin( ls)
                                   -.00295 * sin( ls + ls)
                                   -.02231 * sin( ls_plus_gs_2)
-                                  +.00650 * sin( ls_plus_gs_2 + phi);
-         const double d_incl = .04204 * cos( ls_plus_gs_2 + phi)
+                                  +.00650 * sin( ls_plus_gs_2 + psi);
+         const double d_incl = .04204 * cos( ls_plus_gs_2 + psi)
                                +.00235 * cos( l + g1 + lt_plus_gt + phi)
                                +.00360 * cos( l - lt_gt_minus_g1 + phi);
-         const double d_Omega = .04204 * sin( ls_plus_gs_2 + phi)
+         const double d_Omega = .04204 * sin( ls_plus_gs_2 + psi)
                                +.00235 * sin( l + g1 + lt_plus_gt + phi)
                                +.00358 * sin( l - lt_gt_minus_g1 + phi);
 
-- 
2.43.0


From 446f214a53953fcbb6d9aaa9a4db55304fd58b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 102/107] fix: Uranian satellites were misplaced when their
 mean longitudes were close to zero

---
 gust86.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gust86.cpp b/gust86.cpp
index 14c8b90..e3b65de 100644
--- a/gust86.cpp
+++ b/gust86.cpp
@@ -472,11 +472,8 @@ static double keplkh( const double rl, const double rk, const double rh)
    const int itmax = 20;
    int it;
 
-   if( rl==0.0)
-      return( 0.);
-
    f0 = rl;
-   e0 = fabs(rl);
+   e0 = 1.;
 
    for( it=0; it<itmax; it++)
       {
-- 
2.43.0


From 138851899a124ebe80efc63805991c841e63745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 103/107] fix: the vertical velocities of Helene, Telesto and
 Calypso lacked the factor of their frequency

---
 htc20b.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/htc20b.cpp b/htc20b.cpp
index b6be123..a0a5f99 100644
--- a/htc20b.cpp
+++ b/htc20b.cpp
@@ -45,9 +45,9 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 /* -----------------------------------------------------------------------! */
 
 /* Sample output from the test code below for 'htc20b 2451590':
-Helen -351737.078  126965.254  -33017.275  -289321.532 -705652.257  396448.135
-Teles  222550.256 -182154.616   71289.412   640383.150  632265.407 -391213.715
-Calyp -278795.483  -66349.449   64265.081   292171.217 -836964.572  420403.505
+Helen -351737.078  126965.254  -33017.275  -289321.532 -706451.948  394715.471
+Teles  222550.256 -182154.616   71289.412   640892.305  634607.522 -386733.146
+Calyp -278795.483  -66349.449   64265.081   288965.399 -854013.694  387752.053
 
 */
 
@@ -89,7 +89,7 @@ int htc20( const double jd, const int sat_no, double *xyz, double *vxyz)
     static const int16_t rh[144] = {
                 -2396,  -399,  442, 1278, -4939,  2466,
                   557, -2152, 1074, 5500,   916, -1015,
-                    0,     0,    0,    0,     5,    10,
+                    0,     0,    0,    0,    11,    23,
                     0,     5,   10,    0,     0,     0,
                   -67,   264, -132, -677,  -110,   123,
                   294,    48,  -53, -154,   608,  -304,
@@ -122,7 +122,7 @@ int htc20( const double jd, const int sat_no, double *xyz, double *vxyz)
     static const int16_t rt[72]   /* was [6][12] */ = {
                 -1933,  -253, 320, 1237, -5767,  2904,
                   372, -1733, 873, 6432,   842, -1066,
-                    0,     0,   0,    2,    10,    19,
+                    0,     0,   0,    7,    33,    63,
                     2,    10,  19,    0,     0,     0,
                    -6,    29, -15, -108,   -14,    18,
                    32,     4,  -5,  -21,    97,   -49,
@@ -149,16 +149,16 @@ int htc20( const double jd, const int sat_no, double *xyz, double *vxyz)
     static const int16_t rc[144]   /* was [6][24] */ = {
                   651, 1615, -910, -6145,  2170, -542,
                 -1846,  652, -163, -2166, -5375, 3030,
-                    0,    0,    0,     5,    27,   52,
+                    0,    0,    0,   -17,   -90, -173,
                     5,   27,   52,     0,     0,    0,
                     0,    0,   -2,     0,     0,    0,
-                    0,    0,    0,     0,     0,   -2,
+                    0,    0,    0,     0,     0,    7,
                   -78,   27,   -7,   -89,  -225,  127,
                    27,   68,  -38,  -257,    89,  -22,
                   -77,   28,   -7,   -92,  -225,  127,
                   -28,  -67,   38,   257,   -92,   23,
                     0,    0,   -2,     0,     0,    0,
-                    0,    0,    0,     0,     0,    2,
+                    0,    0,    0,     0,     0,   -7,
                    -2,    0,    0,     4,    -6,    3,
                     0,    2,    0,    -7,    -3,    2,
                    -2,    0,    0,     4,    -6,    3,
-- 
2.43.0


From f145c705e3293dc9a65786b322f34c5e8965f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:26 +0000
Subject: [PATCH 104/107] fix: refraction at the zenith was not a number

---
 refract4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refract4.cpp b/refract4.cpp
index 3b4abf4..daa185f 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -187,6 +187,8 @@ double DLL_FUNC integrated_refraction( const double latitude,
    double c5, rval;
    LOCALS l0, lt, ls;
 
+   if( observed_alt == PI / 2.)     /* all 'z' are zero;  there's nothing to */
+      return( 0.);                  /* iterate on or integrate over */
    ref.r0 = re + height_in_meters;
    ref.c2 = g_bar * Md / R;
    ref.gamma = ref.c2 / alpha;    /* = C3 */
-- 
2.43.0


From 4f3eea458fb52f8ecf65df6278cf5a918327c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:26 +0000
Subject: [PATCH 105/107] fix: the reverse of a refraction found at the first
 try,  such as one of an absent atmosphere,  was not a number

---
 refract4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refract4.cpp b/refract4.cpp
index daa185f..2363bfc 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -260,7 +260,7 @@ double DLL_FUNC reverse_integrated_refraction( const double latitude,
 // printf( "x2 = %lf; y2 = %lf\n", x2 * 180. / PI, y2 * 180. / PI);
    do
       {
-      const double x3 = x2 - (x1 - x2) * y2 / (y1 - y2);
+      const double x3 = (y1 == y2) ? x2 : x2 - (x1 - x2) * y2 / (y1 - y2);
 
       if( fabs( x3 - x2) < tolerance)
          return( x3 - refracted_alt);
-- 
2.43.0


From 86a66b8e6fdc87c259c95a34a5a1e203fdfb0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:26 +0000
Subject: [PATCH 106/107] fix: the search for a color's inverse often gave up, 
 when one side of its bracket stayed put

---
 colors.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index f92669e..ef69387 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -88,8 +88,13 @@ static double compute_inverse_color_polynomial( const double ival,
       rval = 99.;
    else do
       {
-      rval = (ival - color_low) / ( color_high - color_low);
-      rval += rval * (rval -.5) * (rval - 1.);
+      if( max_iterations & 1)       /* every other step is a bisection, */
+         rval = .5;                 /* so the bracket always shrinks    */
+      else
+         {
+         rval = (ival - color_low) / ( color_high - color_low);
+         rval += rval * (rval -.5) * (rval - 1.);
+         }
       rval = low_limit + (high_limit - low_limit) * rval;
       color_rval = compute_color_polynomial( rval, coeffs,
                      ilow_limit, ihigh_limit);
-- 
2.43.0


From b79065788ea3827aa3ede0ff4e3065b0e102728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:26 +0000
Subject: [PATCH 107/107] fix: Tycho colors of exactly 1.8 were treated as if
 their correction were zero

---
 colors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index ef69387..71e75d6 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -189,7 +189,7 @@ double johnson_b_minus_v_from_tycho_b_minus_v( const double b_v_t)
       delta = .046 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = .046 - .054 * (b_v_t - .5) / .9;
-   else if( b_v_t < 1.8)
+   else
       delta = -.008 - .024 * (b_v_t - 1.4) / .4;
    return( .85 * b_v_t + delta);
 }
@@ -213,7 +213,7 @@ double johnson_v_from_tycho_b_minus_v( const double b_v_t, const double tycho_v)
       delta = -.005 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = -.005;
-   else if( b_v_t < 1.8)
+   else
       delta = -.005 - .010 * (b_v_t - 1.4) / .4;
    return( tycho_v - .09 * b_v_t + delta);
 }
-- 
2.43.0

