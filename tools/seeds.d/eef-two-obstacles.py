prop = "P22"
needs = "one finger link that touches two obstacles while the hand closes"
breaks = "closing the hand reports only the first of the obstacles touched by a finger link"
edits = [("VirtualRobot/EndEffector/EndEffectorActor.cpp", "if (storeContact.robotNode == newContact.robotNode && storeContact.obstacle == newContact.obstacle)", "if (storeContact.robotNode == newContact.robotNode)")]
demo = r'''
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <iostream>
#include <set>
using namespace VirtualRobot;
int main()
{
    std::string box = "<CollisionModel><Primitives><Box width='100' height='100' depth='10'/></Primitives></CollisionModel>";
    RobotPtr r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='base'><RobotNode name='base'><Child name='f'/></RobotNode><RobotNode name='f'><Joint type='prismatic'><TranslationDirection x='0' y='0' z='1'/><Limits unit='mm' lo='0' hi='100'/></Joint>" + box + "</RobotNode>"
        "<Endeffector name='e' base='base' tcp='f' gcp='f'><Actor name='x'><Node name='f' considerCollisions='All' direction='1'/></Actor></Endeffector></Robot>");
    ObstaclePtr a = Obstacle::createBox(20, 20, 20), b = Obstacle::createBox(20, 20, 20);
    Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
    m(0, 3) = 30;
    m(2, 3) = 60;
    a->setGlobalPose(m);
    m(0, 3) = -30;
    b->setGlobalPose(m);
    SceneObjectSetPtr s(new SceneObjectSet("s", CollisionChecker::getGlobalCollisionChecker()));
    s->addSceneObject(a);
    s->addSceneObject(b);
    auto c = r->getEndEffector("e")->closeActors(s, 1.0f);
    std::set<SceneObject*> o;
    for (auto& i : c)
        o.insert(i.obstacle.get());
    std::cout << c.size() << " contacts, " << o.size() << " obstacles, joint " << r->getRobotNode("f")->getJointValue() << std::endl;
    return o.size() == 2 ? 0 : 1;
}
'''
