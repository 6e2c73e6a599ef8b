From 3e8196daa6707d84217b6d8caf10af4d58416de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 1/6] fix: do not deduct the deposit from a virtual connector
 balance when converting

The received amount is only part of the actual balance at that point, the
virtual one is increased after the return has been calculated. Deducting it
paid out more than the quoted return (or failed the conversion).
---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..073832d 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -448,7 +448,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # the deposit has already been received, but a virtual balance doesn't include it yet
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -502,7 +503,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # the deposit has already been received, but a virtual balance doesn't include it yet
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0


From 3a4b587dccb6658fb092f14b2528823a3ab5b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 2/6] fix: let the manager deposit connector tokens while the
 converter is inactive

The sender was compared with the bound method getManager instead of its result.
---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 073832d..fcdce96 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From 44fe2a5a83b0d193da33b51cc1339dd44e4b7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 3/6] fix: initialize the manager of the converter on install

Managed.on_install was never called, so that the manager and the pending
manager were left unset after the deployment.
---
 contracts/converter/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index fcdce96..ead397f 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -194,6 +194,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_valid_address(_registry)
         self._require_valid_max_conversion_fee(_maxConversionFee)
         FlexibleTokenController.on_install(self, _token)
+        Managed.on_install(self)
 
         self._allow_registry_update.set(True)
         self._registry.set(_registry)
-- 
2.43.0


From fd36aa695844b6c0b9d9d323a6231acc91fa10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 4/6] fix: enforce the minimum return on the amount the network
 delivers

The minimum return was only checked by the converter. When the owner of the
flexible token in the path isn't a converter, nothing enforced it and the source
tokens were lost for a zero return.
---
 contracts/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/network/network.py b/contracts/network/network.py
index d4d2033..da2eee8 100644
--- a/contracts/network/network.py
+++ b/contracts/network/network.py
@@ -241,6 +241,8 @@ class Network(TokenHolder):
         :return: tokens issued in return
         """
         (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
+        # a path may lead to a token owner which isn't a converter and gives nothing in return
+        require(amount >= min_return, "returning amount less than minimum requested amount")
 
         if self._icx_tokens[to_token_address]:
             icx_token = self.create_interface_score(to_token_address, IcxToken)
-- 
2.43.0


From a2600e1b67429a539d10d8c7e6a242d72586202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 5/6] fix: Storage: a field called 'db' must not replace the
 database of the store

add_fields keeps the container of a field in the attribute '_<field>', which for
a field called 'db' overwrote the store's own '_db': the next add_fields failed.
---
 contracts/utility/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/utility/storage.py b/contracts/utility/storage.py
index 2884da5..33504b2 100644
--- a/contracts/utility/storage.py
+++ b/contracts/utility/storage.py
@@ -36,7 +36,7 @@ class Storage:
     """
 
     def __init__(self, db: IconScoreDatabase):
-        self._db = db
+        self.__db = db
 
     def add_fields(self, field_infos):
         """
@@ -45,7 +45,7 @@ class Storage:
         :param field_infos: list of tuple `field info`
         """
         for name, db_class, value_type in field_infos:
-            db = db_class(name, self._db, value_type=value_type)
+            db = db_class(name, self.__db, value_type=value_type)
             setattr(self, f'_{name}', db)
 
     def __setattr__(self, item, value):
-- 
2.43.0


From 433006b863cb8ba9e9570dc55c1fb2fccfa5d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 6/6] fix: files keep their names and places in the packages

The place of a contract's file in its package was found by replacing the path
of the contracts directory anywhere in the file's path: with a relative path
('contracts') a file like network/contracts_list.py was packaged as
network/network_list.py. And a package.json in a directory below replaced the
one of the package.
---
 contract_generator/builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index bfa65df..95ad583 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -72,10 +72,10 @@ class Builder:
                     continue
 
                 cur_file_path = path.join(file_path, filename)
-                if filename == 'package.json':
+                if filename == 'package.json' and file_path == cur_contract_dir:
                     new_file_path = path.join(contract.name, filename)
                 else:
-                    new_file_path = cur_file_path.replace(self._contracts_path, str(contract.name))
+                    new_file_path = path.join(contract.name, path.relpath(cur_file_path, self._contracts_path))
                 path_tuple = (cur_file_path, new_file_path)
                 contract.path_list.append(path_tuple)
 
-- 
2.43.0

